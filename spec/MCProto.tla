------------------------------ MODULE MCProto -------------------------------
EXTENDS Proto
CONSTANTS GenDepth, MaxReg
Cfg == [e |-> "init", conns |-> [c1 |-> "t1", c2 |-> "t2"]]
Cn == {"c1", "c2"}
Id == {"n:1", "s:1"}
Ops == [e : {"reg"}, c : Cn, id : Id] \cup [e : {"comp"}, c : Cn, id : Id, v : {"a"}]
  \cup [e : {"compt"}, c : Cn, id : Id, v : {"b"}, t : {"t1", "t2"}]
  \cup [e : {"cancel"}, c : Cn, id : Id] \cup [e : {"leave"}, n : 1..2]
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : (o.e = "leave" => o.n <= cnt) /\ Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == cnt <= MaxReg
GenView == <<waiting, cnt, gone>>
=============================================================================
