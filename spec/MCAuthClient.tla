---------------------------- MODULE MCAuthClient ----------------------------
EXTENDS AuthClient
CONSTANTS GenDepth
Cfgs == {[e |-> "init", max |-> x, delay |-> d] : x \in 0..3, d \in {1, 3}}
Bad == {"s404", "s500", "s503ok", "s504", "s408", "s599", "s421", "s429", "s511", "junk", "less", "s204"}
Plans == {<<x>> : x \in Bad \cup {"ok", "mute", "cut"}} \cup {<<"cut", x>> : x \in {"s404", "s503ok", "s504", "less", "s204"} \cup {"ok", "mute"}} \cup {<<"cut", "cut", "ok">>, <<"cut", "cut", "cut", "ok">>, <<"none">>}
Doc == "{\"issuer\":\"i\"}"
Ops == {[e |-> "tick", d |-> x] : x \in {1, 2, 6}} \cup {[e |-> "drop"]}
  \cup {[e |-> "discover", url |-> "bare", plan |-> x, doc |-> Doc] : x \in Plans}
  \cup {[e |-> "discover", url |-> x, plan |-> <<"ok">>, doc |-> Doc] : x \in {"slash", "slashes", "sub", "subslash"}}
  \cup {[e |-> "token", kind |-> k, what |-> "a&b=c", client |-> "c", secret |-> s, back |-> "http://x/?y=1", proof |-> v, scope |-> v, answer |-> "ok", doc |-> Doc] : k \in {"code", "refresh"}, s \in {"", "s:%"}, v \in {"", "p q"}}
  \cup {[e |-> "token", kind |-> "code", what |-> "a", client |-> "c", secret |-> "", back |-> "b", proof |-> "", scope |-> "", answer |-> x, doc |-> Doc] : x \in {"s400", "s401", "s429", "s504", "s500ok", "junk", "less", "cut"}}
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == TRUE
MCView == <<cfg, op, res.k>>
GenView == <<cfg, op>>
=============================================================================
