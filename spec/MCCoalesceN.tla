----------------------------- MODULE MCCoalesceN -----------------------------
EXTENDS Coalesce
CONSTANTS GenDepth, MaxV, MaxT
\* the server's debouncer (with and without merging, with and without intervals per type) and batcher
Base == [e |-> "init", api |-> "nd", kind |-> "deb", merge |-> FALSE, cap |-> 1, iv |-> ("-" :> 0), dflt |-> 50,
         maxwait |-> 150, slack |-> 50, direct |-> FALSE, room |-> 100, on |-> TRUE]
Cfgs == {Base, [Base EXCEPT !.merge = TRUE], [Base EXCEPT !.merge = TRUE, !.cap = 0],
         [Base EXCEPT !.iv = [x \in {"progress", "log"} |-> IF x = "log" THEN 0 ELSE 100]],
         [Base EXCEPT !.api = "nb", !.kind = "bat", !.cap = 2, !.slack = 2, !.maxwait = 100]}
Last == Cardinality({<<k, n>> \in (DOMAIN pend \cup DOMAIN out) \X (1..9) :
   n <= Len(Flat(OutOf(k)) \o Waiting(k))})
Adds == {[e |-> "add", key |-> "p1", ty |-> "progress", v |-> n] : n \in {1 + Len(Waiting("p1") \o Flat(OutOf("p1")))}}
  \cup {[e |-> "add", key |-> "log", ty |-> "log", v |-> n] : n \in {1 + Len(Waiting("log") \o Flat(OutOf("log")))}}
  \cup {[e |-> "add", key |-> "roots", ty |-> "other", v |-> 0]}
Ops == Adds \cup {[e |-> "time", d |-> 50], [e |-> "time", d |-> 30], [e |-> "flush"]}
       \cup (IF Deb THEN {[e |-> "stats"]} \cup (IF on THEN {[e |-> "stop"]} ELSE {}) ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
\* two keys and one step width are enough for the design
MCOps == {o \in Ops : ~(o.e = "add" /\ o.key \in {"roots", "tools"}) /\ ~(o.e = "time" /\ o.d = 30) /\ o.e # "stats"} \cup {[e |-> "look"]}
MCNext == (\E o \in MCOps : Apply(o)) \/ Tau
MCSpec == MCInit /\ [][MCNext]_vars
Bound == /\ now <= MaxT /\ \A k \in DOMAIN pend \cup DOMAIN out : Len(Waiting(k)) + Len(Flat(OutOf(k))) <= MaxV
GenView == <<cfg, on, [k \in DOMAIN pend |-> [n |-> Len(pend[k].q), u |-> now - pend[k].upd, f |-> now - pend[k].first]]>>
MCView == <<cfg, on, [k \in DOMAIN pend |-> [n |-> pend[k].q, u |-> now - pend[k].upd, f |-> now - pend[k].first]], out>>
=============================================================================
