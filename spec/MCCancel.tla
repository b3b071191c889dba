------------------------------ MODULE MCCancel ------------------------------
EXTENDS Cancel
CONSTANTS GenDepth, MaxH
Cfg == [e |-> "init", api |-> "manager"]
Id == {"a", "b"}
Ops == [e : {"create", "drop", "get", "is"}, id : Id] \cup {[e |-> "cancel", id |-> i, why |-> "w"] : i \in Id}
  \cup {[e |-> "self", h |-> 1], [e |-> "clear"]}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops \cup {[e |-> "look"]} : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(sig) <= MaxH /\ Len(notes) <= 2
GenView == <<reg, sig, fired>>
=============================================================================
