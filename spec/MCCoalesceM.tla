----------------------------- MODULE MCCoalesceM -----------------------------
EXTENDS Coalesce
CONSTANTS GenDepth, MaxV, MaxT
\* the message debouncer (with a wait of its own for one key) and the message batcher
Base == [e |-> "init", api |-> "md", kind |-> "deb", merge |-> FALSE, cap |-> 1, iv |-> ("-" :> 0), dflt |-> 50,
         maxwait |-> 100000, slack |-> 2, direct |-> TRUE, room |-> 100, on |-> TRUE]
Cfgs == {Base, [Base EXCEPT !.iv = [x \in {"p1", "tools"} |-> IF x = "p1" THEN 80 ELSE 0]],
         [Base EXCEPT !.api = "mb", !.kind = "bat", !.cap = 2, !.maxwait = 50, !.direct = FALSE],
         [Base EXCEPT !.api = "mb", !.kind = "bat", !.cap = 0, !.maxwait = 50, !.direct = FALSE],
         [Base EXCEPT !.api = "mb", !.kind = "bat", !.cap = 3, !.maxwait = 80, !.direct = FALSE]}
N(k) == 1 + Len(Flat(OutOf(k)) \o Waiting(k))
Adds == IF Deb THEN {[e |-> "add", key |-> "p1", ty |-> "p1", v |-> N("p1")],
                     [e |-> "add", key |-> "log", ty |-> "log", v |-> N("log")],
                     [e |-> "add", key |-> "tools", ty |-> "tools", v |-> 0]}
        ELSE {[e |-> "add", key |-> "", ty |-> "", v |-> N("")]}
Ops == Adds \cup {[e |-> "time", d |-> 50], [e |-> "time", d |-> 30]} \cup (IF Deb THEN {[e |-> "flush"]} ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
\* two keys and one step width are enough for the design
MCOps == {o \in Ops : ~(o.e = "add" /\ o.key \in {"roots", "tools"}) /\ ~(o.e = "time" /\ o.d = 30) /\ o.e # "stats"} \cup {[e |-> "look"]}
MCNext == (\E o \in MCOps : Apply(o)) \/ Tau
MCSpec == MCInit /\ [][MCNext]_vars
Bound == /\ now <= MaxT /\ \A k \in DOMAIN pend \cup DOMAIN out : Len(Waiting(k)) + Len(Flat(OutOf(k))) <= MaxV
GenView == <<cfg, on, [k \in DOMAIN pend |-> [n |-> Len(pend[k].q), u |-> now - pend[k].upd, f |-> now - pend[k].first]]>>
MCView == <<cfg, on, [k \in DOMAIN pend |-> [n |-> pend[k].q, u |-> now - pend[k].upd, f |-> now - pend[k].first]], out>>
=============================================================================
