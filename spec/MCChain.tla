----------------------------- MODULE MCChain -----------------------------
EXTENDS Chain
CONSTANTS GenDepth, MaxLen
Cfgs == {[e |-> "init"]}
Id == "w" \o ToString(Len(chain) + 1)
All(a) == [q \in Kinds |-> a]
One(q, a, d) == [r \in Kinds |-> IF r = q THEN a ELSE d]
Acts == {All("pass"), All("mark")} \cup {One(q, a, "mark") : q \in Kinds, a \in {"fail", "markfail", "pass"}}
Adds == {[e |-> "add", id |-> Id, acts |-> a] : a \in Acts} \cup {[e |-> "add", id |-> "builtin", acts |-> All("pass")]}
Ops == Adds \cup {[e |-> "process", q |-> q, msg |-> <<"m">>] : q \in Kinds}
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Adds : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(chain) <= MaxLen
GenView == <<chain>>
===========================================================================
