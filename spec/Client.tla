------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client (src/client/mod.rs): handshake, capability gate, and pairing  *)
(* of calls with responses over a transport that sends and receives one     *)
(* message at a time.                                                       *)
(* Calls are numbered in the order they are made.  When a call that has to  *)
(* wait for the transport gets it is the implementation's choice (S), and   *)
(* so is who sees a receive fail (F); a trace tells through its results.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [latest: protocol version the client asks for]
  st,       \* "new" | "ready"
  caps,     \* what the server declared
  croots,   \* what the client declared about roots in its handshake: "absent" | "no" | "yes"
  cnt,      \* calls made
  meth,     \* call -> method
  unsent,   \* calls waiting to send (sequence)
  asked,    \* calls that tried to send a request
  out,      \* calls whose request was sent and not answered
  shaking,  \* handshake call in progress, or 0
  stage,    \* handshake accepted, last message not sent yet: the accepted answer, or "no"
  inbox,    \* messages that arrived while nobody was receiving
  sfail,    \* the next send fails
  res
vars == <<cfg, st, caps, croots, cnt, meth, unsent, asked, out, shaking, stage, inbox, sfail, res>>
InitWith(c) ==
  /\ cfg = [latest |-> c.latest] /\ st = "new" /\ caps = {} /\ croots = "absent" /\ cnt = 0
  /\ meth = <<>> /\ unsent = <<>> /\ asked = {} /\ out = {} /\ shaking = 0 /\ stage = "no"
  /\ inbox = <<>> /\ sfail = FALSE /\ res = [k |-> "none"]

Notifs == {"roots", "progress", "cancel"}
Plain == {"ping", "setlevel", "subscribe", "unsubscribe"}   \* the result's contents do not matter
Needs(m) ==
  CASE m \in {"tools", "call"} -> {"tools"}
    [] m \in {"prompts", "prompt"} -> {"prompts"}
    [] m \in {"resources", "templates", "read", "unsubscribe"} -> {"resources"}
    [] m = "subscribe" -> {"resources", "subscribe"}
    [] m = "setlevel" -> {"logging"}
    [] m = "complete" -> {"completions"}
    [] m = "sample" -> {"sampling"}
    [] OTHER -> {}
Allowed(m) == st = "ready" /\ Needs(m) \subseteq caps /\ (m = "roots" => croots = "yes")
Arg(m, n) == CASE m \in {"ping", "setlevel", "roots"} -> ""
               [] OTHER -> ToString(n)
Supported == {"2024-10-07", "2024-11-05", "2025-03-26", "2025-06-18"}
AllCaps == <<"tools", "prompts", "resources", "subscribe", "logging", "completions", "sampling">>
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "," \o Join(Tail(q))
\* the code a server error is reported under
InRange == {"-32000", "-32005", "-32050", "-32099"}
Code(c) == IF c \in InRange THEN "-32603" ELSE c
\* answers: [ok, bad, err, v]: a good result v, a malformed one, or an error with code v
Outcome(m, x) ==
  CASE x.a = "err" -> "err:" \o Code(x.v)
    [] m \in Plain -> "ok"
    [] x.a = "bad" -> "fail"
    [] OTHER -> x.v
RangeOf(q) == {q[k] : k \in DOMAIN q}
Without(q, S) == SelectSeq(q, LAMBDA n : n \notin S)

(***************************************************************************)
(* One event: waiting calls S get to send, in this order, the first of them *)
(* failing if fl; then what arrived is received.                            *)
(* Everything is computed on a record so that the steps can be composed.    *)
(***************************************************************************)
Now == [st |-> st, caps |-> caps, croots |-> croots, unsent |-> unsent, asked |-> asked, out |-> out, shaking |-> shaking,
        stage |-> stage, inbox |-> inbox, sfail |-> sfail, sent |-> <<>>, outs |-> [n \in {} |-> ""]]
Done(w, n, v) == [w EXCEPT !.outs = (n :> v) @@ @, !.out = @ \ {n}, !.unsent = Without(@, {n})]
EndShake(w, n) == IF w.shaking = n THEN [w EXCEPT !.shaking = 0, !.stage = "no"] ELSE w
Entry(mt, n, ok, second) ==
  [n |-> n, m |-> IF second THEN "initialized" ELSE mt[n],
   a |-> IF second THEN "" ELSE IF mt[n] = "init" THEN cfg.latest ELSE Arg(mt[n], n), ok |-> ok]
\* call n gets the transport to send what it has to send
SendOne(w, mt, n, acc) ==
  LET ok == ~w.sfail
      second == n = w.shaking /\ w.stage # "no"
      w1 == [w EXCEPT !.asked = IF second \/ mt[n] \in Notifs THEN @ ELSE @ \cup {n},
                      !.sent = Append(@, Entry(mt, n, ok, second)), !.sfail = FALSE, !.unsent = Without(@, {n})]
  IN IF ~ok THEN EndShake(Done(w1, n, "fail"), n)
     ELSE IF second THEN EndShake(Done([w1 EXCEPT !.st = "ready"], n, w.stage), n)
     ELSE IF mt[n] \in Notifs THEN Done(w1, n, "ok")
     ELSE [w1 EXCEPT !.out = @ \cup {n}]
RECURSIVE SendAll(_, _, _)
SendAll(w, mt, S) == IF S = <<>> THEN w ELSE SendAll(SendOne(w, mt, Head(S), 0), mt, Tail(S))
\* call n receives its response
Answer(w, mt, n, x) ==
  IF mt[n] # "init" THEN Done(w, n, Outcome(mt[n], x))
  ELSE IF x.a = "ok" /\ x.ver \in Supported
       THEN [w EXCEPT !.out = @ \ {n}, !.unsent = Append(@, n), !.stage = x.ver \o "|" \o Join(x.caps),
                      !.caps = RangeOf(x.caps)]
       ELSE EndShake(Done(w, n, IF x.a = "err" THEN "err:" \o Code(x.v) ELSE "fail"), n)
RECURSIVE Receive(_, _, _)
\* F: who sees the next receive failures
Receive(w, mt, F) ==
  IF w.out = {} \/ w.inbox = <<>> THEN w
  ELSE LET x == Head(w.inbox) w1 == [w EXCEPT !.inbox = Tail(@)]
       IN CASE x.t = "resp" /\ x.n \in w.out -> Receive(Answer(w1, mt, x.n, x), mt, F)
            [] x.t = "fail" ->
                 LET n == IF F # <<>> /\ Head(F) \in w.out THEN Head(F) ELSE CHOOSE n \in w.out : \A k \in w.out : n <= k
                 IN Receive(EndShake(Done(w1, n, "fail"), n), mt, IF F = <<>> THEN F ELSE Tail(F))
            [] OTHER -> Receive(w1, mt, F)
\* sends and receptions alternate until nothing moves: S is split at the entries after a reception
RECURSIVE Run(_, _, _, _)
Run(w, mt, S, F) ==
  LET can == {n \in RangeOf(w.unsent) : S # <<>> /\ Head(S) = n}
      w1 == Receive(w, mt, F)
  IN IF can # {} THEN Run(SendOne(w, mt, Head(S), 0), mt, Tail(S), F)
     ELSE IF w1 # w THEN Run(w1, mt, S, F) ELSE [w |-> w, left |-> S]
Commit(w, mt) ==
  /\ st' = w.st /\ caps' = w.caps /\ croots' = w.croots /\ unsent' = w.unsent /\ asked' = w.asked /\ out' = w.out
  /\ shaking' = w.shaking /\ stage' = w.stage /\ inbox' = w.inbox /\ sfail' = w.sfail /\ meth' = mt
  /\ res' = [k |-> "ok", sent |-> w.sent, outs |-> w.outs]
  /\ UNCHANGED cfg
\* nobody waits for the transport while it is free
Settle(w, mt, S, F) ==
  LET q == Run(w, mt, S, F) IN q.left = <<>> /\ (q.w.out = {} => q.w.unsent = <<>>) /\ Commit(q.w, mt)
Refuse(k) == res' = [k |-> k, sent |-> <<>>, outs |-> [n \in {} |-> ""]]
           /\ UNCHANGED <<cfg, st, caps, croots, cnt, meth, unsent, asked, out, shaking, stage, inbox, sfail>>

\* implementation's choices, from the recorded result (or everything at once)
RECURSIVE Idx(_)
Idx(q) == IF q = <<>> THEN <<>> ELSE <<Head(q).n>> \o Idx(Tail(q))
RECURSIVE AutoS(_, _)
Pick(o, dflt) == IF "r" \in DOMAIN o THEN Idx(o.r.sent) ELSE dflt
Fails(o, dflt) == IF "r" \in DOMAIN o
                  THEN LET q == SelectSeq(o.r.outs, LAMBDA x : x.v = "fail" /\ x.n \in out) IN Idx(q) ELSE dflt
AutoS(w, mt) == w.unsent

Call(o) ==
  LET n == cnt + 1  mt == Append(meth, o.m) IN
  IF o.m = "init" /\ (shaking # 0) THEN Refuse("busy")
  ELSE /\ cnt' = n
       /\ IF o.m = "init"
          THEN IF st = "ready" THEN Commit(Done(Now, n, "fail"), mt)
               ELSE LET w == [Now EXCEPT !.shaking = n, !.croots = o.roots, !.unsent = Append(@, n)]
                    IN Settle(w, mt, Pick(o, AutoS(w, mt)), Fails(o, <<>>))
          ELSE IF ~Allowed(o.m) THEN Commit(Done(Now, n, "fail"), mt)
          ELSE LET w == [Now EXCEPT !.unsent = Append(@, n)]
               IN Settle(w, mt, Pick(o, AutoS(w, mt)), Fails(o, <<>>))
Again(w) == IF w.shaking # 0 THEN <<w.shaking>> ELSE <<>>
Give(o) ==
  IF o.t = "resp" /\ o.n \notin asked THEN Refuse("skip")
  ELSE LET w == [Now EXCEPT !.inbox = Append(@, o)] IN
       /\ cnt' = cnt
       /\ LET q == Receive(w, meth, Fails(o, <<>>)) IN Settle(w, meth, Pick(o, q.unsent), Fails(o, <<>>))
Drop(o) ==
  IF o.n > cnt \/ o.n = shaking THEN Refuse("skip")
  ELSE LET w == [Now EXCEPT !.out = @ \ {o.n}, !.unsent = Without(@, {o.n})]
       IN cnt' = cnt /\ Settle(w, meth, Pick(o, w.unsent), Fails(o, <<>>))
FailSend == /\ sfail' = TRUE /\ res' = [k |-> "ok", sent |-> <<>>, outs |-> [n \in {} |-> ""]]
            /\ UNCHANGED <<cfg, st, caps, croots, cnt, meth, unsent, asked, out, shaking, stage, inbox>>
Apply(o) ==
  CASE o.e = "do" -> Call(o)
    [] o.e = "give" -> Give(o)
    [] o.e = "drop" -> Drop(o)
    [] o.e = "failsend" -> FailSend
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) ==
  /\ r.k = res'.k
  /\ r.sent = res'.sent
  /\ Len(r.outs) = Cardinality(DOMAIN res'.outs)
  /\ \A k \in DOMAIN r.outs : r.outs[k].n \in DOMAIN res'.outs /\ r.outs[k].v = res'.outs[r.outs[k].n]
(************************ properties of the design ************************)
Sent(n) == n \in out
\* before the handshake has succeeded only handshake messages are sent
GateShake == [][st = "new" => \A k \in DOMAIN res'.sent :
                  res'.sent[k].m \in {"init", "initialized"} \/ st' = "ready"]_vars
GateCaps == [][\A k \in DOMAIN res'.sent :
                 res'.sent[k].m \in {"init", "initialized"} \/ Needs(res'.sent[k].m) \subseteq caps']_vars
\* an answer belongs to a call that was waiting for it
NoStranger == [][\A n \in DOMAIN res'.outs : n \in out \/ n \in RangeOf(unsent) \/ n > cnt]_vars
Disjoint == out \cap RangeOf(unsent) = {}
=============================================================================
