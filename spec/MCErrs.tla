------------------------------- MODULE MCErrs -------------------------------
EXTENDS Errs
CONSTANTS GenDepth
Cfg == [e |-> "init"]
Kinds == {"protocol", "data", "msg", "parse", "invalid_request", "method_not_found", "invalid_params", "validation", "internal", "not_found",
          "authentication", "capability", "resource_not_found", "cancelled", "state", "other", "io"}
Codes == Known \cup {0, 1, -1, -31999, -32000, -32005, -32050, -32099, -32100, -32604, -32699, -32701, 2147483647, -2147483647}
Ways == {"plain", "tool", "prompt", "resource", "resources", "sampling"}
Data == {"0", "\"x\"", "[1,{\"a\":false}]", "{}", "false"}
Makes == {[e |-> "make", kind |-> y, code |-> z, text |-> t, data |-> "[1]"] : y \in {"protocol", "data"}, z \in Codes, t \in {"", "m"}}
         \cup {[e |-> "make", kind |-> y, code |-> 0, text |-> t, data |-> ""] : y \in Kinds \ {"protocol", "data"}, t \in {"", "m n"}}
         \cup {[e |-> "make", kind |-> "data", code |-> -32602, text |-> "bad", data |-> d] : d \in Data}
Ops == (IF er = Nothing THEN Makes \cup {[e |-> "code", code |-> z] : z \in Codes} ELSE {[e |-> "send", way |-> y] : y \in Ways})
GenView == <<er>>
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
Bound == TLCGet("level") <= 5
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
