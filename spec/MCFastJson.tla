----------------------------- MODULE MCFastJson -----------------------------
EXTENDS FastJson
CONSTANTS GenDepth
Cfg == [e |-> "init", k |-> "x"]
Pads == {0, 29, 30, 31, 32, 61}
I(what, fill, b_, pre, post) == [e |-> what, fill |-> fill, b |-> b_, pre |-> pre, post |-> post]
Some(what, fill, B) == {I(what, fill, b_, pre, post) : b_ \in B, pre \in Pads, post \in {0, 35}}
\* well-formed and ill-formed sequences of every length
Seqs == {<<>>, <<127>>, <<128>>, <<191>>, <<193, 191>>, <<194, 128>>, <<194>>, <<194, 127>>, <<223, 191>>, <<224, 159, 191>>, <<224, 160, 128>>, <<226, 130, 172>>, <<226, 130>>,
         <<237, 159, 191>>, <<237, 160, 128>>, <<239, 191, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128, 128>>, <<240, 159, 166, 128>>, <<240, 159, 166>>,
         <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<255>>, <<195, 169, 195, 169>>, <<195, 169, 169>>}
Texts == {<<>>, <<91, 49, 32, 50, 93>>, <<91, 49, 32, 44, 32, 50, 93>>, <<34, 32, 92, 34, 32, 34>>, <<34, 195, 169, 34>>, <<34, 92, 117, 100, 56, 51, 100, 34>>,
          <<34, 195, 34>>, <<45, 32, 49>>, <<116, 114, 32, 117, 101>>, <<123, 34, 97, 34, 58, 9, 123, 125, 125>>, <<34, 92, 92, 34>>}
S(q) == <<"s", q>>
Vals == {S(<<>>), S(<<233, 128512, 34, 92, 10, 1, 127>>), <<"n", "-12">>, <<"t">>, <<"f">>, <<"z">>, <<"a", <<>>>>, <<"o", <<>>>>}
Trees == Vals \cup {<<"a", <<v, w>>>> : v \in Vals, w \in {<<"a", <<>>>>, <<"o", <<<<<<107, 58>>, <<"z">>>>>>>>}}
         \cup {<<"o", <<<<<<>>, v>>, <<<<58, 34>>, <<"a", <<v>>>>>>>>>> : v \in Vals}
L == {<<0, 0>>, <<0, 500>>, <<0, 501>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>>}
Ops == Some("utf8", 120, Seqs) \cup Some("utf8", 120, {Rep(255, 32), Rep(128, 33)})
  \cup Some("ws", 120, {<<>>, <<32>>, <<9, 10, 13>>, <<32, 11, 160, 32>>}) \cup Some("esc", 120, {<<>>, <<34>>, <<92, 34>>, <<92, 47, 39>>}) \cup Some("ws", 32, {<<120>>}) \cup Some("esc", 34, {<<97>>})
  \cup Some("b64", 251, {<<>>, <<0>>, <<255, 254>>, <<1, 2, 3>>}) \cup {[x \in DOMAIN o \cup {"mask"} |-> IF x = "mask" THEN <<170, 0, 255, 1>> ELSE o[x]] : o \in Some("xor", 5, {<<>>, <<1, 2, 3>>})}
  \cup {I("rle", 7, b_, pre, post) : b_ \in {<<>>, <<8>>, <<8, 8, 7>>}, pre \in {0, 1, 31, 32, 33, 254, 255, 256, 300}, post \in {0, 40}}
  \cup {[x \in DOMAIN o \cup {"needle"} |-> IF x = "needle" THEN nd ELSE o[x]] : o \in Some("find", 97, {<<>>, <<98>>, <<98, 99, 98, 99, 100>>}), nd \in {<<>>, <<98>>, <<98, 99, 100>>, <<97, 98>>, Rep(97, 33)}}
  \cup Some("copy", 3, {<<1, 2>>}) \cup Some("parse", 32, Texts)
  \cup {[e |-> "batch", bs |-> <<t1, t2>>] : t1 \in Texts, t2 \in {<<49>>, <<>>}}
  \cup {[e |-> w, v |-> v] : w \in {"write", "pretty"}, v \in Trees}
  \cup {[e |-> "lens", max |-> a, lens |-> Rep(c, 8) \o <<d>>] : a \in L, c \in L, d \in L} \cup {[e |-> "sums", bufs |-> <<Rep(255, x), <<1, 2>>, <<>>>>] : x \in {0, 31, 32, 33, 100}}
GenView == <<cfg>>
Bound == TRUE
MCInit == InitWith(Cfg)
MCNext == res.k = "none" /\ \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
