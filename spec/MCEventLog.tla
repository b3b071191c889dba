---------------------------- MODULE MCEventLog ----------------------------
EXTENDS EventLog
CONSTANTS GenDepth, MaxN, MaxT
\* m1 belongs to A, m2 to B; m3 takes over A once m1 has gone
Cfgs == {[e |-> "init", max |-> mx, age |-> 20, managers |-> [m \in {"m1", "m2", "m3"} |-> IF m = "m2" THEN "B" ELSE "A"]] : mx \in {2, 3}}
Count == Cardinality(DOMAIN toks) + ctr["m1"] + ctr["m2"] + ctr["m3"]
Id(m) == m \o "." \o ToString(ctr[m])
KnownIds == Ids(log) \cup {toks[n].st.last : n \in DOMAIN toks}
NextToken == "t" \o ToString(Cardinality(DOMAIN toks) + 1)
\* m3 records only after it has resumed, and m1 not any more from then on
CanRec(m) == CASE m = "m1" -> ctr["m3"] = 0 [] m = "m3" -> ctr["m3"] > 0 [] OTHER -> TRUE
Ops ==   {[e |-> "rec", m |-> m, dir |-> d, id |-> Id(m), fail |-> FALSE] : m \in {q \in DOMAIN ctr : CanRec(q)}, d \in {"in", "out"}}
    \cup {[e |-> "rec", m |-> "m1", dir |-> "out", id |-> Id("m1"), fail |-> TRUE]}
    \cup {[e |-> "since", id |-> i, lim |-> l] : i \in KnownIds \cup {"nothing"}, l \in {-1, 1}}
    \cup {[e |-> "token", m |-> m, n |-> NextToken] : m \in {"m1", "m2"}}
    \cup {[e |-> "stoken", n |-> NextToken]}
    \cup {[e |-> "check", n |-> n] : n \in DOMAIN toks \cup {"t0"}}
    \cup {[e |-> "resume", m |-> m, n |-> n] : m \in DOMAIN ctr, n \in DOMAIN toks \cup {"t0"}}
    \cup {[e |-> "pending", m |-> m, id |-> i] : m \in {"m1", "m2"}, i \in KnownIds}
    \cup {[e |-> "advance", d |-> 11], [e |-> "clear", ts |-> now], [e |-> "clear", ts |-> now - 11], [e |-> "latest"]}
MCInit == \E c \in Cfgs : InitWith(c)
\* reading changes nothing: left out of the exhaustive check
MCOps == {o \in Ops : o.e \in {"rec", "token", "stoken", "resume", "advance", "clear"} /\ (o.e = "clear" => o.ts = now)}
MCNext == \E o \in MCOps : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Count <= MaxN /\ now <= MaxT
GenView == <<cfg.max, [n \in 1..Len(log) |-> <<log[n].s, log[n].dir, now - log[n].ts, log[n].seq>>], ctr, [n \in DOMAIN toks |-> toks[n].st]>>
MCView == <<cfg, now, log, ctr, toks>>
===========================================================================
