------------------------------ MODULE MCWatch ------------------------------
EXTENDS Watch
CONSTANTS GenDepth, Fs, MaxLevel
C(p_, i_, m_, w) == [e |-> "init", pats |-> p_, ign |-> i_, max |-> m_, wait |-> w, cap |-> 1, files |-> <<"a.txt">>]
Cfgs == {C(<<"**/*">>, <<"**/*.log">>, 2, 200), C(<<"*.txt", "sub/**">>, <<"sub/t*">>, 1, 250), C(<<"**/b.?d">>, <<>>, 3, 0)}
Ops == {[e |-> "chg", what |-> w, f |-> f, g |-> f] : w \in {"write", "rm", "touch", "read"}, f \in Fs}
  \cup {[e |-> "chg", what |-> "mv", f |-> f, g |-> g] : f \in Fs, g \in Fs}
  \cup {[e |-> "add", f |-> f, d |-> d] : f \in Fs, d \in {"x", "y"}} \cup {[e |-> "del", f |-> f] : f \in Fs}
  \cup {[e |-> x] : x \in {"tick", "list", "stop"}} \cup (IF on THEN {} ELSE {[e |-> "start", f |-> f] : f \in {"", "a.txt"}}) \cup {[e |-> "busy", fs |-> <<"a.txt", "sub/b.md">>]}
GenView == <<cfg, reg, files, on, pend>>
Bound == TLCGet("level") <= MaxLevel
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
