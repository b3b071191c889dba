--------------------------- MODULE MCClientGate ----------------------------
EXTENDS Client
CONSTANTS GenDepth, MaxCalls
Cfg == [e |-> "init", latest |-> "L"]
CapSets == {SelectSeq(AllCaps, LAMBDA c : c \in S) : S \in {T \in SUBSET RangeOf(AllCaps) : "subscribe" \in T => "resources" \in T}}
Full == AllCaps
M == {"ping", "setlevel", "tools", "call", "prompts", "prompt", "resources", "templates", "read", "subscribe", "unsubscribe",
      "complete", "sample", "roots", "progress", "cancel"}
AllOps == [e : {"do"}, m : {"init"}, roots : {"absent", "no", "yes"}] \cup [e : {"do"}, m : M]
  \cup [e : {"give"}, t : {"resp"}, n : {1, 2, 3}, a : {"ok"}, v : {"x"}, ver : {"2025-06-18"}, caps : CapSets]
  \cup [e : {"give"}, t : {"resp"}, n : {1, 2, 3}, a : {"ok"}, v : {"x"}, ver : {"2024-11-05", "1999-01-01"}, caps : {Full}]
  \cup [e : {"give"}, t : {"resp"}, n : {1, 2, 3}, a : {"err"}, v : {"-32601", "-32050", "-1"}, ver : {""}, caps : {<<>>}]
  \cup [e : {"give"}, t : {"resp"}, n : {1, 2, 3}, a : {"bad"}, v : {""}, ver : {""}, caps : {<<>>}]
  \cup [e : {"failsend"}]
\* only the outstanding call is answered, and capability sets matter to a handshake only
Sensible(o) == /\ (o.e = "do" /\ cnt >= MaxCalls) => FALSE
               /\ o.e = "give" => /\ o.n \in out
                                  /\ (o.a = "ok" /\ o.ver = "2025-06-18" /\ o.caps # Full) => o.n = shaking
               /\ (o.e = "do" /\ out # {}) => FALSE
               /\ (o.e = "failsend") => caps \in {{}, RangeOf(Full)}
Ops == {o \in AllOps : Sensible(o)}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == cnt <= MaxCalls
GenView == <<st, caps, croots, [n \in out |-> meth[n]], shaking, sfail, IF cnt > 2 THEN 2 ELSE cnt>>
=============================================================================
