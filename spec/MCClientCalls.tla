--------------------------- MODULE MCClientCalls ---------------------------
EXTENDS Client
CONSTANTS GenDepth, MaxCalls
Cfg == [e |-> "init", latest |-> "L"]
M == {"call", "read"}
Res(n) == [e : {"give"}, t : {"resp"}, n : {n}, a : {"ok", "err"}, v : {"-1"}, ver : {"2025-06-18"}, caps : {AllCaps}]
Ops == [e : {"do"}, m : {"init"}, roots : {"absent"}] \cup [e : {"do"}, m : M]
  \cup UNION {Res(n) : n \in 1..MaxCalls}
  \cup [e : {"give"}, t : {"stale", "notif", "req", "fail"}]
  \cup [e : {"drop"}, n : 1..MaxCalls]
  \cup [e : {"failsend"}]
\* every way the waiting calls may get to send
Perms == UNION {{q \in [1..k -> 1..MaxCalls] : \A i, j \in 1..k : q[i] = q[j] => i = j} : k \in 0..2}
Choice(o) == {[sent |-> [k \in DOMAIN p |-> [n |-> p[k]]], outs |-> f] :
                p \in Perms, f \in {<<>>} \cup {<<[n |-> n, v |-> "fail"]>> : n \in out}}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : /\ (cnt = 0 => o.e = "do" /\ o.m = "init")
                         /\ IF o.e = "failsend" THEN Apply(o) ELSE \E c \in Choice(o) : Apply(o @@ [r |-> c])
MCSpec == MCInit /\ [][MCNext]_vars
Bound == cnt <= MaxCalls /\ Len(inbox) <= 2
GenView == <<st, unsent, out, shaking, inbox, sfail, cnt>>
=============================================================================
