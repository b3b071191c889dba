--------------------------- MODULE MCReconnect ---------------------------
EXTENDS Reconnect
CONSTANTS GenDepth, MaxN, MaxT
C(retries, brk, reset, jit) == [e |-> "init", init |-> 20, max |-> 70, num |-> 2, den |-> 1, jit |-> jit, retries |-> retries,
     reset |-> reset, minup |-> 40, brk |-> brk, brkto |-> 60, watch |-> TRUE]
Cfgs == {C(3, 2, TRUE, 0), C(2, -1, FALSE, 10), C(-1, 3, TRUE, 50), C(3, 1, FALSE, 0)}
Ops == [e : {"should", "connecting", "connected", "failed", "lost", "dropped", "reset", "delay"}]
       \cup {[e |-> "advance", d |-> 30], [e |-> "enable", v |-> ~s.en]}
       \cup {[e |-> "run", outs |-> [n \in 1..k |-> FALSE]] : k \in 0..3}
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == s.now <= MaxT /\ s.ret <= MaxN /\ s.att <= MaxN /\ s.suc <= 2
GenView == <<cfg, s.st, s.ret, s.fail, s.en, IF s.st = "connected" THEN s.now - s.up ELSE IF s.st = "open" THEN s.now - s.open ELSE 0>>
MCView == <<cfg, [s EXCEPT !.att = 0, !.suc = 0, !.now = 0, !.up = IF s.st = "connected" THEN Min(s.now - s.up, 90) ELSE 0, !.open = IF s.st = "open" THEN Min(s.now - s.open, 90) ELSE 0]>>
===========================================================================
