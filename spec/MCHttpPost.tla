------------------------------ MODULE MCHttpPost ------------------------------
EXTENDS Http
Post0 == [e |-> "post", sid |-> "none", pv |-> "none", ct |-> "application/json", acc |-> "application/json, text/event-stream", body |-> "ping", id |-> "n:1", arg |-> "x", form |-> "rpc"]
P(s, b, i) == [Post0 EXCEPT !.sid = s, !.body = b, !.id = i]
G(s, le) == [e |-> "get", sid |-> s, acc |-> "text/event-stream", le |-> le]
Q(x, s) == [e |-> x, sid |-> s]
Cfgs == {[e |-> "init", stateful |-> s, json |-> j, store |-> FALSE] : s \in BOOLEAN, j \in BOOLEAN}
Ids == {"none", "s1", "zz"}
Body == {"init", "call", "unknown", "fail", "ping", "note", "resp", "junk"}
Ops == {P(s, b, i) : s \in Ids, b \in Body, i \in {"n:1", "s:x"}}
  \cup {[P(s, b, "n:1") EXCEPT !.ct = c] : s \in Ids, b \in {"init", "call", "note"}, c \in {"none", "text/plain", "application/json; charset=utf-8"}}
  \cup {[P(s, b, "n:1") EXCEPT !.acc = c] : s \in Ids, b \in {"init", "call", "note"}, c \in {"none", "text/html", "application/json", "text/event-stream"}}
  \cup {[P(s, b, "n:1") EXCEPT !.pv = c] : s \in Ids, b \in {"init", "call", "note", "resp"}, c \in {"2024-11-05", "2025-03-26", "1999-01-01", "x"}}
  \cup {[P("none", "init", "n:1") EXCEPT !.arg = v, !.pv = w] : v \in {"2024-11-05", "2025-03-26", "2099-01-01"}, w \in {"none", "2024-11-05", "2025-03-26"}}
  \cup {[P(s, b, "n:1") EXCEPT !.form = "legacy"] : s \in {"s1", "none"}, b \in {"init", "call", "note"}}
  \cup {G("s1", "none"), [G("s1", "none") EXCEPT !.acc = "application/json"], [G("none", "none") EXCEPT !.acc = "none"], G("none", "none"), Q("del", "s1")}
GenView == <<cfg, sess, DOMAIN strm, DOMAIN ended>>
CONSTANTS GenDepth, MaxSess, MaxCnt
Bound == Cardinality(issued) <= MaxSess /\ cnt <= MaxCnt /\ Cardinality(DOMAIN eids) <= MaxCnt
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
