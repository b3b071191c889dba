----------------------------- MODULE MCHttpLink -----------------------------
EXTENDS HttpLink
CONSTANTS GenDepth, MaxQ
Heads == <<<<"authorization", "Bearer b">>, <<"x-one", "1">>>>
Cfgs == {[e |-> "init", sse |-> s, wait |-> 3, heads |-> h] : s \in BOOLEAN, h \in {<<>>, Heads}}
M(k, x) == [k |-> k, n |-> x, t |-> "t"]
F(f) == [f |-> f, m |-> M("note", 5)]
Batches == {<<F("msg")>>, <<F("msg"), F("junk"), [f |-> "msg", m |-> M("req", 6)]>>, <<F("odd")>>, <<F("comment")>>, <<>>}
Answers == {"msg", "202", "202text", "204", "empty", "404", "500msg", "junk", "cut", "half", "mute", "slow"}
Ops == {[e |-> x] : x \in {"recv", "drop", "close"}} \cup {[e |-> "tick", d |-> x] : x \in {1, 3}}
  \cup (IF phase = "up" THEN {} ELSE {[e |-> "connect", answer |-> x] : x \in IF cfg.sse THEN {"200", "404", "cut"} ELSE {"200"}})
  \cup {[e |-> "send", m |-> M("req", 9), answer |-> x, back |-> M("resp", 9)] : x \in Answers}
  \cup (IF stream THEN [e : {"feed"}, fs : Batches, end : BOOLEAN] ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(events) <= MaxQ /\ Len(answers) <= MaxQ
MCView == <<cfg, phase, stream, events, answers, op>>
GenView == <<cfg, phase, stream, Len(events), Len(answers), op>>
=============================================================================
