------------------------------ MODULE MCHttpSess ------------------------------
EXTENDS Http
Post0 == [e |-> "post", sid |-> "none", pv |-> "none", ct |-> "application/json", acc |-> "application/json, text/event-stream", body |-> "ping", id |-> "n:1", arg |-> "x", form |-> "rpc"]
P(s, b, i) == [Post0 EXCEPT !.sid = s, !.body = b, !.id = i]
G(s, le) == [e |-> "get", sid |-> s, acc |-> "text/event-stream", le |-> le]
Q(x, s) == [e |-> x, sid |-> s]
Cfgs == {[e |-> "init", stateful |-> s, json |-> j, store |-> TRUE] : s \in BOOLEAN, j \in BOOLEAN}
Ids == {"none", "s1", "s2", "zz"}
Ops == {P(s, b, "n:1") : s \in Ids, b \in {"init", "call", "note", "resp"}}
  \cup {G(s, "none") : s \in Ids} \cup {Q("del", s) : s \in Ids} \cup {Q("hangup", s) : s \in {"s1"}}
GenView == <<cfg, sess, issued, DOMAIN strm, DOMAIN ended>>
CONSTANTS GenDepth, MaxSess, MaxCnt
Bound == Cardinality(issued) <= MaxSess /\ cnt <= MaxCnt /\ Cardinality(DOMAIN eids) <= MaxCnt
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
