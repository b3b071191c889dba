----------------------------- MODULE MCWsServer -----------------------------
EXTENDS WsServer
CONSTANTS GenDepth, MaxPeers, MaxQ
Cfgs == {[e |-> "init", unmasked |-> u] : u \in BOOLEAN}
M(k, x) == [k |-> k, n |-> x, t |-> "t"]
Fr(f) == [f |-> f, m |-> M("note", 5)]
Quiet == {"ping", "pong", "junk", "odd", "bin"}
Fatal == {"close", "drop", "big", "badutf", "unmasked", "reserved"}
Batches == {<<Fr(f)>> : f \in {"text", "frag"} \cup Quiet \cup Fatal}
  \cup {<<[f |-> "text", m |-> M("req", 1)], Fr(q), [f |-> "frag", m |-> M("resp", 2)]>> : q \in Quiet}
  \cup {<<[f |-> "text", m |-> M("req", 1)], Fr(q), [f |-> "text", m |-> M("resp", 2)]>> : q \in Fatal}
Ops == [e : {"accept"}, good : BOOLEAN] \cup {[e |-> "send", m |-> M("req", 9)], [e |-> "recv"], [e |-> "close"]}
  \cup {[e |-> "sendall", ms |-> <<M("req", 1), M("note", 2), M("resp", 3)>>, bye |-> y] : y \in BOOLEAN}
  \cup (IF cur # 0 /\ live THEN [e : {"peer"}, fs : Batches, waiting : BOOLEAN] ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == npeer <= MaxPeers /\ Len(queue) <= MaxQ
GenView == <<cfg, cur # 0, npeer, live, Len(queue)>>
=============================================================================
