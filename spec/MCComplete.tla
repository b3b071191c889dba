----------------------------- MODULE MCComplete -----------------------------
EXTENDS Complete
CONSTANTS GenDepth
Cfg == [e |-> "init"]
F(at, n, d) == [e |-> "put", at |-> at, n |-> n, dir |-> d]
Files == {F(<<>>, "d", TRUE), F(<<>>, "dx.rs", FALSE), F(<<>>, "d.md", FALSE), F(<<>>, ".h", FALSE), F(<<"d">>, "e", TRUE), F(<<"d">>, "d", FALSE), F(<<"d">>, "a.rs", FALSE)}
Setups == {[e |-> "setup", base |-> y, exts |-> z] : y \in {<<>>, << <<>> >>, << <<"d">> >>}, z \in {<<>>, << <<"rs">> >>, << <<"md", "h">> >>}}
Texts == {"", "d", "dx", ".", "..", "d/", "d/e", "d/./", "d/../", "d//a", "./d", "@/", "@/d", "@/d/a", "x", "x/", "d/e/", "d.md"}
Words == {[v |-> "ab", l |-> <<>>], [v |-> "xa", l |-> <<"ab">>], [v |-> "a", l |-> <<"b">>]}
Lists == {<<>>} \cup {<<x>> : x \in Words} \cup {<<x, y>> : x \in Words, y \in Words}
Ops == (IF items = <<>> THEN Files \cup Setups \cup {[e |-> "find", text |-> x] : x \in Texts} \cup {[e |-> "drop", at |-> <<>>, n |-> "d"]} ELSE {})
       \cup (IF tree = {} THEN {[e |-> "items", items |-> x] : x \in Lists} \cup {[e |-> "pick", text |-> x] : x \in {"", "a", "ab", "abc", "b"}} ELSE {})
GenView == <<items, tree, conf>>
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
Bound == Cardinality(tree) <= 4
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
