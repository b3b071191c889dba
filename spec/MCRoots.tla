------------------------------- MODULE MCRoots -------------------------------
EXTENDS Roots
CONSTANTS GenDepth, MaxR
Cfg == [e |-> "init", api |-> "manager"]
Ops == [e : {"reg"}, uri : {"file:///a", "file:///b"}, name : {"none", "x"}, file : {TRUE}]
  \cup {[e |-> "reg", uri |-> "http://a", name |-> "none", file |-> FALSE]}
  \cup [e : {"unreg"}, h : 1..MaxR] \cup {[e |-> "list"], [e |-> "has"]}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops \cup {[e |-> "look"]} : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(regs) <= MaxR /\ notes <= 2
GenView == <<regs, live>>
=============================================================================
