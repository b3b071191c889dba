------------------------------- MODULE MCUri -------------------------------
EXTENDS Uri
CONSTANTS GenDepth, Wide
Cfg == [e |-> "init"]
Lits == IF Wide THEN {"", "/u", "x", "?k=1"} ELSE {"", "/u"}
Exprs == {"{" \o o \o s \o "}" : o \in {"", "+", "#", ".", "/", ";", "?", "&"}, s \in {"a", "a,b", "a:2", "a*", "a:1,b*"}}
Odd == {"{}", "{", "}", "{a", "a}", "{a,}", "{,a}", "{a b}", "{a:}", "{a:0}", "{a:+2}", "{a:02}", "{a:x}", "{a:9999}", "{a:10001}", "{a**}", "{+}", "{a-b}", "{1a}", "{ a }", "{a}{", "{{a}}", "{!a}", "{_}", "{a1}", "{a}/{a}", "{?a,a}", "", "/x/y"}
Temps == {x \o y \o z : x \in Lits, y \in Exprs, z \in IF Wide THEN {"", "{b}", "/{b}", "{&b}", "{#b}"} ELSE {"", "/{b}"}} \cup Odd
Vals == {"", "v", "ab", "a b", "a/b", "a,b", "\t\n\r", "50%", "%20", "a.b", "?x=1&y#z", "-_~", "'\"<>"}
E0(x, y) == [e |-> "expand", v |-> (IF x = "none" THEN <<>> ELSE <<[n |-> "a", x |-> x]>>) \o (IF y = "none" THEN <<>> ELSE <<[n |-> "b", x |-> y]>>)]
Uris == {"/", "/u/v", "v", "/v", "#v", ".v", ";a=v", "?a=v", "?a=1&b=2", "/v,w", "v,w", "v/w", "/v/w", ".v.w", ";a=v;b=w", "x", "%2F", "a%20b", "%C3%A9", "%zz", "%FF", "/u/v/w", "/x/y", "?k=1&a=v", "a\tb"}
Ops == IF res.k = "none" THEN {[e |-> "new", t |-> x] : x \in Temps}
       ELSE {E0(x, y) : x \in Vals \cup {"none"}, y \in {"none", "", "w", "c d", "1/2"}} \cup {[e |-> "match", u |-> x] : x \in Uris}
\* a prefix and triplets together are not covered, neither are cut surrogates
GenView == <<tmpl, res.k = "none">>
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
Bound == TLCGet("level") <= 3
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
