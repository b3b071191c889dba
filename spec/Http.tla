-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* The streamable HTTP server (src/server/streamable_http_server.rs): its   *)
(* sessions, the treatment of posts, the event streams of sessions and      *)
(* what a reconnecting client is sent again.                                *)
(*                                                                          *)
(* Session and event ids are the names the driver gives to the ids it       *)
(* reads from the wire, in order of first appearance; what an               *)
(* implementation may choose freely (a fresh id, the negotiated version,    *)
(* JSON or event-stream bodies) is taken from the observation and checked.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [stateful, json, store]
  sess,     \* live sessions -> negotiated version ("none": not negotiated)
  issued,   \* all session ids ever issued
  strm,     \* session -> answers waiting to be read on its open stream
  ended,    \* session -> what can still be read from a stream the server has ended
  log,      \* session -> answers stored for it, in order
  eids,     \* event id -> the answer it belongs to
  cnt,      \* answers produced
  res
vars == <<cfg, sess, issued, strm, ended, log, eids, cnt, res>>
Empty == [x \in {} |-> 0]
InitWith(c) ==
  /\ cfg = [stateful |-> c.stateful, json |-> c.json, store |-> c.store]
  /\ sess = Empty /\ issued = {} /\ strm = Empty /\ ended = Empty /\ log = Empty /\ eids = Empty /\ cnt = 0
  /\ res = [k |-> "none"]

CtOk  == {"application/json", "application/json; charset=utf-8"}
AccOk == {"application/json, text/event-stream", "text/event-stream, application/json", "application/json", "text/event-stream"}
GetOk == {"text/event-stream", "application/json, text/event-stream", "text/event-stream, */*"}
Sup == {"2025-06-18", "2025-03-26", "2024-11-05", "2024-10-07"}
Default == "2025-03-26"
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoAns == [id |-> "none", ok |-> FALSE, v |-> ""]

IsReq(b) == b \in {"init", "call", "unknown", "fail", "ping"}
Refusals(o) ==
  (IF o.ct \notin CtOk THEN {415} ELSE {})
  \cup (IF o.acc \notin AccOk THEN {406} ELSE {})
  \cup (IF o.body = "junk" THEN {400} ELSE {})
  \cup (IF o.body = "init" /\ cfg.stateful /\ o.sid # "none"
        THEN IF o.sid \in DOMAIN sess THEN {400} ELSE {404} ELSE {})
  \cup (IF o.body \notin {"init", "junk"}
        THEN (IF cfg.stateful THEN IF o.sid = "none" THEN {400} ELSE IF o.sid \notin DOMAIN sess THEN {404} ELSE {} ELSE {})
             \cup (IF o.pv # "none" /\ o.pv \notin Sup THEN {400} ELSE {})
             \cup (IF o.pv # "none" /\ cfg.stateful /\ o.sid \in DOMAIN sess /\ sess[o.sid] # "none" /\ sess[o.sid] # o.pv THEN {400} ELSE {})
        ELSE {})

\* what the implementation may choose
FreshSid(o) == IF "r" \in DOMAIN o THEN o.r.sid ELSE "s" \o ToString(Cardinality(issued) + 1)
FreshEid(o) == IF "r" \in DOMAIN o THEN o.r.eid ELSE "e" \o ToString(Cardinality(DOMAIN eids) + 1)
Ver(o)      == IF "r" \in DOMAIN o THEN (IF o.r.ans.id = "none" THEN o.r.pv ELSE o.r.ans.v) ELSE "2024-11-05"
Form(o)     == IF cfg.json THEN "json" ELSE IF "r" \in DOMAIN o THEN o.r.form ELSE IF o.sid = "none" THEN "json" ELSE "sse"
Status(o, S)== IF "r" \in DOMAIN o THEN o.r.st ELSE CHOOSE x \in S : TRUE

Refused(st) == [st |-> st, sid |-> "any", pv |-> "any", form |-> "any", eid |-> "any", ans |-> NoAns, h |-> <<>>, cb |-> <<>>]
Acked == [Refused(202) EXCEPT !.form = "none"]

Answer(o) ==
  [id |-> o.id, ok |-> o.body \in {"init", "call", "ping"},
   v  |-> CASE o.body = "call" -> o.arg [] o.body = "init" -> Ver(o) [] OTHER -> ""]
Calls(o) == IF o.body \in {"call", "fail"} THEN <<o.arg>> ELSE <<>>

Post(o) ==
  LET R == Refusals(o)
      new == o.body = "init" /\ cfg.stateful
      sid == IF ~cfg.stateful THEN "none" ELSE IF new THEN FreshSid(o) ELSE o.sid
      ver == IF o.body = "init" THEN Ver(o)
             ELSE IF cfg.stateful /\ sess[o.sid] # "none" THEN sess[o.sid] ELSE Default
      onstream == ~cfg.json /\ o.sid \in DOMAIN strm
      n == cnt + 1
      form == Form(o)
  IN
  IF R # {} THEN /\ Status(o, R) \in R /\ res' = Refused(Status(o, R))
                 /\ UNCHANGED <<cfg, sess, issued, strm, ended, log, eids, cnt>>
  ELSE IF ~IsReq(o.body) THEN res' = Acked /\ UNCHANGED <<cfg, sess, issued, strm, ended, log, eids, cnt>>
  ELSE
  /\ cnt' = n
  /\ o.body = "init" => Ver(o) \in Sup
  /\ new => sid \notin issued
  /\ IF new THEN sess' = (sid :> Ver(o)) @@ sess /\ issued' = issued \cup {sid} ELSE UNCHANGED <<sess, issued>>
  /\ log' = IF cfg.store /\ cfg.stateful
            THEN (sid :> Append(IF sid \in DOMAIN log THEN log[sid] ELSE <<>>, [n |-> n, ans |-> Answer(o)])) @@ log ELSE log
  /\ IF onstream
     THEN /\ strm' = [strm EXCEPT ![o.sid] = Append(@, [n |-> n, ans |-> Answer(o)])]
          /\ res' = [st |-> 202, sid |-> sid, pv |-> ver, form |-> "none", eid |-> "none", ans |-> NoAns, h |-> Calls(o),
                     cb |-> IF new THEN <<"open " \o sid>> ELSE <<>>]
          /\ UNCHANGED eids
     ELSE /\ form \in {"json", "sse"}
          /\ IF form = "sse"
             THEN FreshEid(o) \notin DOMAIN eids /\ eids' = (FreshEid(o) :> n) @@ eids
             ELSE UNCHANGED eids
          /\ res' = [st |-> 200, sid |-> sid, pv |-> ver, form |-> form, eid |-> IF form = "sse" THEN FreshEid(o) ELSE "none",
                     ans |-> Answer(o), h |-> Calls(o), cb |-> IF new THEN <<"open " \o sid>> ELSE <<>>]
          /\ UNCHANGED strm
  /\ UNCHANGED <<cfg, ended>>

Missed(sid, le) ==
  IF sid \in DOMAIN log /\ le \in DOMAIN eids /\ \E k \in DOMAIN log[sid] : log[sid][k].n = eids[le]
  THEN LET k == CHOOSE k \in DOMAIN log[sid] : log[sid][k].n = eids[le] IN SubSeq(log[sid], k + 1, Len(log[sid]))
  ELSE <<>>
GetRefusals(o) ==
  (IF o.acc \notin GetOk THEN {406} ELSE {})
  \cup (IF o.sid = "none" /\ ~cfg.stateful THEN {405} ELSE {})
  \cup (IF o.sid # "none" /\ cfg.stateful /\ o.sid \notin DOMAIN sess THEN {404} ELSE {})
  \cup (IF o.sid \in DOMAIN strm THEN {409} ELSE {})
Opened(st, sid, cb) == [st |-> st, sid |-> sid, cb |-> cb]
Get(o) ==
  LET R == GetRefusals(o)
      new == o.sid = "none"
      sid == IF new THEN FreshSid(o) ELSE o.sid
  IN
  IF R # {} THEN /\ Status(o, R) \in R /\ res' = Opened(Status(o, R), "none", <<>>)
                 /\ UNCHANGED <<cfg, sess, issued, strm, ended, log, eids, cnt>>
  ELSE
  /\ new => sid \notin issued
  /\ IF new THEN sess' = (sid :> "none") @@ sess /\ issued' = issued \cup {sid} ELSE UNCHANGED <<sess, issued>>
  /\ strm' = (sid :> Missed(sid, o.le)) @@ strm
  /\ ended' = Drop(ended, sid)
  /\ res' = Opened(200, sid, IF new THEN <<"open " \o sid>> ELSE <<>>)
  /\ UNCHANGED <<cfg, log, eids, cnt>>

\* the client looks at what its stream has brought so far
ReadOf(o, q, end) ==
  LET kn == {k \in DOMAIN q : \E e \in DOMAIN eids : eids[e] = q[k].n}
      new == DOMAIN q \ kn
      id(k) == IF k \in kn THEN CHOOSE e \in DOMAIN eids : eids[e] = q[k].n
               ELSE IF "r" \in DOMAIN o THEN IF k \in DOMAIN o.r.evs THEN o.r.evs[k].eid ELSE "missing" \o ToString(k)
               ELSE "e" \o ToString(Cardinality(DOMAIN eids) + Cardinality({m \in new : m <= k}))
      ids == {id(k) : k \in new}
  IN /\ ids \cap DOMAIN eids = {} /\ Cardinality(ids) = Cardinality(new)
     /\ eids' = [e \in ids |-> q[CHOOSE k \in new : id(k) = e].n] @@ eids
     /\ res' = [evs |-> [k \in DOMAIN q |-> [eid |-> id(k), ans |-> q[k].ans]], end |-> end]
Read(o) ==
  /\ IF o.sid \in DOMAIN strm
     THEN ReadOf(o, strm[o.sid], FALSE) /\ strm' = [strm EXCEPT ![o.sid] = <<>>] /\ UNCHANGED ended
     ELSE IF o.sid \in DOMAIN ended
     THEN ReadOf(o, ended[o.sid], TRUE) /\ ended' = Drop(ended, o.sid) /\ UNCHANGED strm
     ELSE res' = [evs |-> <<>>, end |-> TRUE] /\ UNCHANGED <<strm, ended, eids>>
  /\ UNCHANGED <<cfg, sess, issued, log, cnt>>
\* the client goes away from its stream; what it has not read is lost with it
Hangup(o) ==
  /\ strm' = Drop(strm, o.sid) /\ ended' = Drop(ended, o.sid) /\ res' = [k |-> "ok"]
  /\ UNCHANGED <<cfg, sess, issued, log, eids, cnt>>
Delete(o) ==
  LET R == (IF o.sid = "none" THEN {404} ELSE {}) \cup (IF cfg.stateful /\ o.sid \notin DOMAIN sess THEN {404} ELSE {}) IN
  IF R # {} THEN res' = Opened(404, "none", <<>>) /\ UNCHANGED <<cfg, sess, issued, strm, ended, log, eids, cnt>>
  ELSE /\ sess' = Drop(sess, o.sid) /\ log' = Drop(log, o.sid)
       /\ IF o.sid \in DOMAIN strm THEN ended' = (o.sid :> strm[o.sid]) @@ ended /\ strm' = Drop(strm, o.sid)
          ELSE UNCHANGED <<strm, ended>>
       /\ res' = Opened(200, "none", <<"close " \o o.sid>>)
       /\ UNCHANGED <<cfg, issued, eids, cnt>>

Apply(o) ==
  CASE o.e = "post" -> Post(o)
    [] o.e = "get"  -> Get(o)
    [] o.e = "read" -> Read(o)
    [] o.e = "hangup" -> Hangup(o)
    [] o.e = "del"  -> Delete(o)
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
\* "any" in the specification's result stands for whatever was seen
ResMatches(r) == DOMAIN r = DOMAIN res' /\ \A f \in DOMAIN r : (f \in {"sid", "pv", "form", "eid"} /\ res'[f] = "any") \/ r[f] = res'[f]

(************************ properties of the design ************************)
LiveAreIssued == DOMAIN sess \subseteq issued
StreamsAreLive == cfg.stateful => DOMAIN strm \subseteq DOMAIN sess
LogsAreLive == DOMAIN log \subseteq DOMAIN sess
NeverReissued == [][\A x \in issued : x \in DOMAIN sess' => x \in DOMAIN sess]_vars
VersionFixed == [][\A x \in DOMAIN sess \cap DOMAIN sess' : sess'[x] = sess[x]]_vars
\* an answer is in one session's log and stream only, and in order there
Ns(q) == {q[k].n : k \in DOMAIN q}
LogsApart == \A x, y \in DOMAIN log : x # y => Ns(log[x]) \cap Ns(log[y]) = {}
StreamsApart == \A x, y \in DOMAIN strm : x # y => Ns(strm[x]) \cap Ns(strm[y]) = {}
Ascending(q) == \A a, b \in DOMAIN q : a < b => q[a].n < q[b].n
InOrder == (\A x \in DOMAIN log : Ascending(log[x])) /\ (\A x \in DOMAIN strm : Ascending(strm[x]))
OwnStream == cfg.stateful /\ cfg.store => \A x \in DOMAIN strm : strm[x] # <<>> => x \in DOMAIN log /\ Ns(strm[x]) \subseteq Ns(log[x])
=============================================================================
