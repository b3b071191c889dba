---------------------------- MODULE MCRecovery ----------------------------
EXTENDS Recovery
CONSTANTS GenDepth, MaxT
CB(f, c, t) == [t |-> "cb", ft |-> f, st |-> c, to |-> t]
Pol == [c \in {"int", "inv", "tmo", "np"} |->
         CASE c = "int" -> CB(2, 2, 50)
           [] c = "inv" -> [t |-> "fixed", n |-> 2, d |-> 20]
           [] c = "tmo" -> [t |-> "exp", n |-> 3, d |-> 20, max |-> 30, num |-> 2, den |-> 1]
           [] OTHER -> [t |-> "fb"]]
Own(f, c) == [ft |-> f, st |-> c, to |-> 40]
Cfgs == {[e |-> "init", pol |-> Pol, dflt |-> [t |-> "fast"], fb |-> [x \in {"a"} |-> "ok"], own |-> o] : o \in {Own(2, 2), Own(1, 1), Own(3, 2)}}
Outs == {<<>>, <<"int">>, <<"none">>, <<"np">>, <<"inv", "int">>, <<"inv", "inv", "inv">>, <<"tmo", "tmo">>, <<"tmo", "tmo", "tmo", "par">>, <<"par">>}
Ops ==   {[e |-> "exec", c |-> "x", id |-> i, outs |-> o] : i \in {"a", "b"}, o \in Outs}
    \cup {[e |-> x] : x \in {"allow", "success", "failure"}}
    \cup {[e |-> "advance", d |-> 25]}
    \cup {[e |-> "plain", n |-> n, d |-> 20, outs |-> o] : n \in {0, 1, 2}, o \in {<<>>, <<"inv">>, <<"int", "tmo">>}}
MCInit == \E c \in Cfgs : InitWith(c)
\* one operation and the outcomes that matter to its breaker are enough for the design
MCOps == {o \in Ops : o.e # "plain" /\ (o.e = "exec" => o.id = "a" /\ o.outs \in {<<>>, <<"int">>, <<"inv", "int">>})}
\* executions x and y of a and b in two steps each
Steps == \E c \in {"x", "y"}, u \in {<<>>, <<"int">>, <<"inv", "int">>} :
            LET o == [e |-> "exec", c |-> c, id |-> "a", outs |-> u] IN
            \/ c \notin DOMAIN calls /\ PreApply(o)
            \/ c \in DOMAIN calls /\ calls[c] /\ Finish(o.id, o.outs, <<>>) /\ calls' = [x \in DOMAIN calls \ {c} |-> calls[x]] /\ UNCHANGED cfg
            \/ c \in DOMAIN calls /\ ~calls[c] /\ calls' = [x \in DOMAIN calls \ {c} |-> calls[x]] /\ UNCHANGED <<cfg, now, br, res>>
MCNext == Steps \/ \E o \in MCOps : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= MaxT
Age(b) == [b EXCEPT !.last = IF b.state = "open" THEN Min(now - b.last, 100) ELSE 0]
GenView == <<cfg, [i \in DOMAIN br |-> Age(br[i])]>>
MCView == <<cfg, [i \in DOMAIN br |-> Age(br[i])], calls>>
===========================================================================
