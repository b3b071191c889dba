----------------------------- MODULE MCSession -----------------------------
(* Session with small constants: exhaustive check of the design, and source of test scripts. *)
EXTENDS Session
CONSTANTS MaxTime, GenDepth, NIds
Cfg == [e |-> "init", max |-> 2, timeout |-> 2, ids |-> [n \in 1..NIds |-> "s" \o ToString(n)]]
Names == cfg.ids \cup {"zz"}
Ops == {[e |-> "create", client |-> "none"]}
  \cup [e : {"get", "validate", "destroy"}, id : Names]
  \cup [e : {"update", "auth"}, id : Names, v : {"w"}]
  \cup [e : {"cleanup", "active", "count"}]
  \cup {[e |-> "advance", d |-> 1]}
  \cup {[e |-> "process", ck |-> <<<<"sid", "s1">>, <<"mcp-session-id", i>>>>, x |-> "s1", up |-> FALSE, sp |-> TRUE] : i \in Names}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= MaxTime
GenView == <<now, live, used>>
=============================================================================
