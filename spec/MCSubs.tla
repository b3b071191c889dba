------------------------------- MODULE MCSubs -------------------------------
EXTENDS Subs
CONSTANTS GenDepth
Cfg == [e |-> "init", api |-> "manager", strict |-> FALSE]
U == {"u1", "u2"}
C == {"c1", "c2", "c3"}
Ops == [e : {"sub", "unsub"}, u : U, c : C] \cup [e : {"leave", "of"}, c : C] \cup [e : {"changed", "has", "at"}, u : U] \cup {[e |-> "stats"]}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops \cup {[e |-> "look"]} : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(notes) <= 2
GenView == subs
=============================================================================
