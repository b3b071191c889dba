------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server's message loop (src/server/mod.rs: Server::run and the        *)
(* request handlers), together with the wire codec for what it receives     *)
(* and sends.                                                               *)
(*                                                                          *)
(* The peer sends messages; the loop takes them one at a time, in order.    *)
(* A request is handed to the handler it names and answered; a handler may  *)
(* block ("slow") until the environment lets it go ("open").  res.obs is    *)
(* what the world sees of one step: handler calls and frames written.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Known    \* admitted known findings
VARIABLES
  cfg,       \* [tools, prompts: <<[n, b]>>, res, samp, caps, name]
  inbox,     \* messages received but not yet taken by the loop
  cur,       \* the request whose handler is blocked, or Idle
  dead,      \* the loop has ended (only by a known finding)
  hist,      \* ghost: requests in order of arrival, answers in order, handler calls
  res
vars == <<cfg, inbox, cur, dead, hist, res>>
Idle == [t |-> "idle"]

InitWith(c) ==
  /\ cfg = c
  /\ inbox = <<>> /\ cur = Idle /\ dead = FALSE
  /\ hist = [req |-> <<>>, ans |-> <<>>, hand |-> <<>>]
  /\ res = [obs |-> <<>>]

IsRequest(m) == m.t \notin {"notif", "resp"}
Find(list, n) == LET S == {k \in DOMAIN list : list[k].n = n} IN IF S = {} THEN "absent" ELSE list[CHOOSE k \in S : TRUE].b
RECURSIVE Join(_)
Join(list) == IF list = <<>> THEN "" ELSE list[1].n \o "," \o Join(Tail(list))
RECURSIVE JoinS(_)
JoinS(list) == IF list = <<>> THEN "" ELSE list[1] \o "," \o JoinS(Tail(list))

Res(m, body)  == << <<"out", m.id, "res", body>> >>
Fail(m)       == << <<"out", m.id, "err", "-32603">> >>
\* the handler call as the handler sees it: its kind, name, arguments and request id
Call(m, k, n, a) == << <<"hand", k, n, a, m.rid>> >>

(* What a request causes: handler calls, then the answer; blk: the answer waits for the handler *)
Serve(m, k, n, a, b, body) ==
  CASE b \in {"absent", "none"} -> [calls |-> <<>>, out |-> Fail(m), blk |-> FALSE]
    \* a protocol error the handler returns is the answer: code, message and data
    [] b = "refuse" -> [calls |-> Call(m, k, n, a), out |-> << <<"out", m.id, "err", "-32602:refused é:{\"why\":[1,null]}">> >>, blk |-> FALSE]
    [] b = "limit" -> [calls |-> Call(m, k, n, a), out |-> << <<"out", m.id, "err", "-32050:refused: too many:">> >>, blk |-> FALSE]
    [] b = "fail"  -> [calls |-> Call(m, k, n, a), out |-> Fail(m), blk |-> FALSE]
    [] b = "slow"  -> [calls |-> Call(m, k, n, a), out |-> Res(m, body), blk |-> TRUE]
    [] OTHER       -> [calls |-> Call(m, k, n, a), out |-> Res(m, body), blk |-> FALSE]
Plain(m, body) == [calls |-> <<>>, out |-> Res(m, body), blk |-> FALSE]
Caps == IF cfg.samp = "none" THEN cfg.caps ELSE cfg.caps \o "sampling,"

Handle(m) ==
  CASE m.t = "init"      -> Plain(m, "2024-11-05|" \o Caps \o "|" \o cfg.name)
    [] m.t \in {"ping", "subscribe", "unsubscribe", "complete", "setlevel", "elicit"} -> Plain(m, "{}")
    [] m.t = "tools"     -> Plain(m, Join(cfg.tools))
    [] m.t = "prompts"   -> Plain(m, Join(cfg.prompts))
    [] m.t = "templates" -> Plain(m, "")
    [] m.t = "call"      -> Serve(m, "tool", m.name, m.args, Find(cfg.tools, m.name),
                                  "[\"" \o m.name \o "\"," \o m.args \o "]")
    [] m.t = "prompt"    -> Serve(m, "prompt", m.name, m.args, Find(cfg.prompts, m.name),
                                  m.name \o ":" \o m.args)
    [] m.t = "list"      -> IF cfg.res = "none" THEN Plain(m, "")
                            ELSE Serve(m, "list", "", m.cursor, cfg.res, "at:" \o m.cursor)
    [] m.t = "read"      -> Serve(m, "read", m.uri, "", cfg.res, "text:" \o m.uri)
    [] m.t = "sample"    -> Serve(m, "sample", "", m.text, cfg.samp, "said:" \o m.text)
    \* requests only a client can serve
    [] m.t \in {"roots", "askuser"} -> [calls |-> <<>>, out |-> << <<"out", m.id, "err", "-32601">> >>, blk |-> FALSE]
    \* a method that does not exist
    [] m.t = "bad"       -> [calls |-> <<>>, out |-> << <<"out", m.id, "err", "-32601">> >>, blk |-> FALSE]
    [] OTHER             -> [calls |-> <<>>, out |-> <<>>, blk |-> FALSE]
Stops(m) == m.t = "bad" /\ "unknown-method" \in Known

\* the loop runs until nothing is left or a handler blocks
RECURSIVE Run(_, _)
Run(q, obs) ==
  IF q = <<>> THEN [obs |-> obs, q |-> q, cur |-> Idle, dead |-> FALSE]
  ELSE IF Stops(q[1]) THEN [obs |-> obs, q |-> <<>>, cur |-> Idle, dead |-> TRUE]
  ELSE LET h == Handle(q[1]) IN
       IF h.blk THEN [obs |-> obs \o h.calls, q |-> Tail(q), cur |-> q[1], dead |-> FALSE]
       ELSE Run(Tail(q), obs \o h.calls \o h.out)

Record(ms, obs) ==
  hist' = [req  |-> hist.req \o [k \in DOMAIN SelectSeq(ms, IsRequest) |-> SelectSeq(ms, IsRequest)[k].id],
           ans  |-> hist.ans \o [k \in DOMAIN SelectSeq(obs, LAMBDA x : x[1] = "out") |->
                                   SelectSeq(obs, LAMBDA x : x[1] = "out")[k][2]],
           hand |-> hist.hand \o SelectSeq(obs, LAMBDA x : x[1] = "hand")]

Settle(q, obs0) ==
  LET r == Run(q, obs0) IN
  /\ inbox' = r.q /\ cur' = r.cur /\ dead' = r.dead /\ res' = [obs |-> r.obs]

Send(ms) ==
  /\ IF dead THEN UNCHANGED <<inbox, cur, dead>> /\ res' = [obs |-> <<>>]
     ELSE IF cur # Idle THEN inbox' = inbox \o ms /\ UNCHANGED <<cur, dead>> /\ res' = [obs |-> <<>>]
     ELSE Settle(ms, <<>>)
  /\ Record(ms, res'.obs)
  /\ UNCHANGED cfg

Open ==
  /\ IF cur = Idle THEN UNCHANGED <<inbox, cur, dead>> /\ res' = [obs |-> <<>>]
     ELSE Settle(inbox, Handle(cur).out)
  /\ Record(<<>>, res'.obs)
  /\ UNCHANGED cfg

Apply(o) ==
  CASE o.e = "send" -> Send(o.ms)
    [] o.e = "open" -> Open
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(************************ properties of the design ************************)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
AnsweredInOrder == IsPrefix(hist.ans, hist.req)
AllAnsweredWhenIdle == (cur = Idle /\ ~dead) => hist.ans = hist.req /\ inbox = <<>>
AtMostOneWaiting == cur # Idle => Len(hist.ans) + 1 + Len(SelectSeq(inbox, IsRequest)) = Len(hist.req)
=============================================================================
