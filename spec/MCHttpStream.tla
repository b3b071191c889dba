------------------------------ MODULE MCHttpStream ------------------------------
EXTENDS Http
Post0 == [e |-> "post", sid |-> "none", pv |-> "none", ct |-> "application/json", acc |-> "application/json, text/event-stream", body |-> "ping", id |-> "n:1", arg |-> "x", form |-> "rpc"]
P(s, b, i) == [Post0 EXCEPT !.sid = s, !.body = b, !.id = i]
G(s, le) == [e |-> "get", sid |-> s, acc |-> "text/event-stream", le |-> le]
Q(x, s) == [e |-> x, sid |-> s]
Cfgs == {[e |-> "init", stateful |-> TRUE, json |-> j, store |-> s] : s \in BOOLEAN, j \in BOOLEAN} \cup {[e |-> "init", stateful |-> FALSE, json |-> FALSE, store |-> TRUE]}
Ids == {"s1", "s2"}
Ops == {P("none", "init", "n:1")} \cup {P(s, "call", "n:2") : s \in Ids}
  \cup {G(s, le) : s \in Ids, le \in {"none", "e1", "e2", "zz"}}
  \cup {Q(x, s) : x \in {"read", "hangup"}, s \in Ids} \cup {Q("del", "s1")}
GenView == <<cfg, sess, strm, ended, log, eids>>
CONSTANTS GenDepth, MaxSess, MaxCnt
Bound == Cardinality(issued) <= MaxSess /\ cnt <= MaxCnt /\ Cardinality(DOMAIN eids) <= MaxCnt
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
