------------------------------ MODULE MCBatch ------------------------------
EXTENDS Batch
CONSTANTS GenDepth, MaxTime, NReq, Max
Cfg == [e |-> "init", api |-> "processor", max |-> Max, timeout |-> 2, wrap |-> FALSE]
R(n) == [id |-> "n:" \o ToString(n), bad |-> FALSE]
Ops == {[e |-> "begin", reqs |-> [k \in 1..n |-> R(k)]] : n \in {0, 1, NReq}}
  \cup {[e |-> "finish", n |-> k, o |-> x, body |-> "b" \o ToString(k)] : k \in 1..NReq, x \in {"res", "err"}}
  \cup {[e |-> "tick"], [e |-> "metrics"]}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= MaxTime /\ tot.n <= NReq
GenView == <<reqs, st, at, out, now, busy, tot.n>>
=============================================================================
