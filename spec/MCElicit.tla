------------------------------ MODULE MCElicit ------------------------------
EXTENDS Elicit
CONSTANTS GenDepth, MaxTime, NAsk
Cfg == [e |-> "init", timeout |-> 2, open |-> TRUE]
Id == {"a", "b"}
Used == DOMAIN wait \cup DOMAIN oc
\* callers are numbered in the order they ask
Ops == [e : {"ask"}, n : 1..NAsk, id : Id, prompt : {"p"}]
  \cup [e : {"answer"}, id : Id, v : {"1"}, c : {FALSE}] \cup [e : {"cancel"}, id : Id]
  \cup {[e |-> "cancelall"], [e |-> "tick"], [e |-> "count"], [e |-> "shut"]}
MCInit == InitWith(Cfg)
Fresh(o) == o.e = "ask" => o.n \notin Used /\ \A m \in 1..o.n-1 : m \in Used
MCNext == \E o \in Ops \cup {[e |-> "look"]} : (o.e = "look" => FALSE) /\ Fresh(o) /\ Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= MaxTime /\ Len(sent) <= NAsk
GenView == <<open, now, pend, wait, oc>>
=============================================================================
