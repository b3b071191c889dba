----------------------------- MODULE MCWsClient -----------------------------
EXTENDS WsClient
CONSTANTS GenDepth, MaxConn, MaxQ
Cfgs == {[e |-> "init", auto |-> a, delay |-> 2, cap |-> 5, max |-> x, ping |-> IF x = 0 THEN 3 ELSE 0] : a \in BOOLEAN, x \in {0, 3}}
M(k, x) == [k |-> k, n |-> x, t |-> "t"]
Fr(f) == [f |-> f, m |-> M("note", 5)]
Text == [f |-> "text", m |-> M("req", 1)]
Quiet == {"frag", "ping", "pong", "junk", "odd", "bin"}
Fatal == {"close", "drop", "badutf", "reserved"}
Batches == {<<Text, Fr(q), [f |-> "text", m |-> M("resp", 2)]>> : q \in Quiet} \cup {<<Fr(q)>> : q \in Fatal} \cup {<<Text, Fr(q), Text>> : q \in Fatal}
Ops == {[e |-> x] : x \in {"connect", "recv", "drop", "close"}} \cup {[e |-> "send", m |-> M("req", 9)]}
  \cup {[e |-> "tick", d |-> x] : x \in {1, 2, 7}} \cup {[e |-> "mode", m |-> x] : x \in {"good", "no", "cut", "hang"} \ {mode}}
  \cup (IF phase = "up" THEN {[e |-> "sendall", ms |-> <<M("note", 1), M("resp", 2), M("fail", 3)>>]} \cup [e : {"peer"}, fs : Batches] ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == conn <= MaxConn /\ Len(queue) <= MaxQ
MCView == <<cfg, mode, phase, conn, age, queue, [op EXCEPT !.bad = IF cfg.max = 0 THEN 0 ELSE @]>>
GenView == <<cfg, mode, phase, conn, age, Len(queue), op.k, op.stage, op.bad, op.left, op.next>>
=============================================================================
