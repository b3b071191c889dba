------------------------------ MODULE HttpLink ------------------------------
(***************************************************************************)
(* The plain HTTP client transport with its event stream                   *)
(* (src/shared/http.rs): messages go out as POST requests, whose answers   *)
(* may carry a message; others come over the event stream.  One operation  *)
(* runs at a time; it may last, and can be given up.  Time passes only in  *)
(* "tick".                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* sse: there is an event stream; wait: the longest a POST may take; heads: further headers
  phase,   \* "new" (not connected yet), "up", "over" (the stream has ended, or closed)
  stream,  \* the event stream is open
  events,  \* messages of the event stream, not received yet
  answers, \* messages from answers, not received yet
  op,      \* the operation that lasts: "none", "recv", "send" (left: time until it fails)
  res
vars == <<cfg, phase, stream, events, answers, op, res>>
NoMsg == [k |-> "", n |-> 0, t |-> ""]
Idle == [k |-> "none", left |-> 0]
InitWith(c) == cfg = c /\ phase = "new" /\ stream = FALSE /\ events = <<>> /\ answers = <<>> /\ op = Idle /\ res = [k |-> "none"]

\* seen: requests as method and body; each carries the configured headers
Res(k, m, seen) == res' = [k |-> k, m |-> m, seen |-> seen, up |-> phase' = "up"]
Wire(m) == m.k \o ToString(m.n) \o m.t
\* o.answer: the status of the answer to a GET, or "cut"
Connect(o) ==
  /\ op = Idle /\ phase # "up" /\ UNCHANGED <<events, answers, op>>
  /\ LET good == ~cfg.sse \/ o.answer = "200" IN
     /\ phase' = IF good THEN "up" ELSE phase
     /\ stream' = (good /\ cfg.sse)
     /\ Res(IF good THEN "ok" ELSE "err", NoMsg, IF cfg.sse THEN <<"GET ">> ELSE <<>>)
Send(o) ==
  /\ op = Idle /\ UNCHANGED <<phase, stream, events>>
  /\ LET seen == <<"POST " \o Wire(o.m)>> IN
     IF phase = "over" THEN UNCHANGED <<answers, op>> /\ Res("err", NoMsg, <<>>)
     ELSE CASE o.answer = "msg" -> answers' = Append(answers, o.back) /\ UNCHANGED op /\ Res("ok", NoMsg, seen)
            [] o.answer \in {"202", "202text", "204", "empty"} -> UNCHANGED <<answers, op>> /\ Res("ok", NoMsg, seen)
            [] o.answer \in {"404", "500msg", "junk", "cut", "half"} -> UNCHANGED <<answers, op>> /\ Res("err", NoMsg, seen)
            \* no answer, or one that does not end
            [] o.answer \in {"mute", "slow"} -> UNCHANGED answers /\ op' = [k |-> "send", left |-> cfg.wait] /\ Res("wait", NoMsg, seen)
\* Which of the two sources comes first is free; each keeps its order.
Take(d, k) ==
  LET es == events \o d IN
  \/ /\ es # <<>> /\ events' = Tail(es) /\ UNCHANGED answers /\ op' = Idle /\ Res(k, es[1], <<>>)
  \/ /\ answers # <<>> /\ events' = es /\ answers' = Tail(answers) /\ op' = Idle /\ Res(k, answers[1], <<>>)
Recv ==
  /\ op = Idle /\ UNCHANGED <<phase, stream>>
  /\ IF events # <<>> \/ answers # <<>> THEN Take(<<>>, "got")
     ELSE /\ UNCHANGED <<events, answers>>
          /\ IF phase = "over" THEN UNCHANGED op /\ Res("err", NoMsg, <<>>)
             ELSE op' = [k |-> "recv", left |-> 0] /\ Res("wait", NoMsg, <<>>)
Drop == op # Idle /\ op' = Idle /\ UNCHANGED <<phase, stream, events, answers>> /\ Res("none", NoMsg, <<>>)
\* messages and what is no message on the event stream; then perhaps its end
Feed(o) ==
  LET q == SelectSeq(o.fs, LAMBDA f : f.f = "msg")
      d == [x \in DOMAIN q |-> q[x].m]
  IN /\ stream /\ stream' = ~o.end
     /\ phase' = IF o.end THEN "over" ELSE phase
     /\ IF op.k = "recv" /\ d # <<>> THEN Take(d, "got")
        ELSE IF op.k = "recv" /\ o.end THEN op' = Idle /\ UNCHANGED <<events, answers>> /\ Res("err", NoMsg, <<>>)
        ELSE events' = events \o d /\ UNCHANGED <<answers, op>> /\ Res(IF op = Idle THEN "none" ELSE "wait", NoMsg, <<>>)
Close ==
  /\ op = Idle /\ phase' = "over" /\ stream' = FALSE /\ events' = <<>> /\ answers' = <<>> /\ UNCHANGED op
  /\ Res("ok", NoMsg, IF stream THEN <<"end">> ELSE <<>>)
Tick(o) ==
  /\ UNCHANGED <<phase, stream, events, answers>>
  /\ IF op.k # "send" THEN UNCHANGED op /\ Res(IF op = Idle THEN "none" ELSE "wait", NoMsg, <<>>)
     ELSE IF o.d >= op.left THEN op' = Idle /\ Res("err", NoMsg, <<>>)
     ELSE op' = [op EXCEPT !.left = @ - o.d] /\ Res("wait", NoMsg, <<>>)
Apply(o) ==
  /\ UNCHANGED cfg
  /\ CASE o.e = "connect" -> Connect(o) [] o.e = "send" -> Send(o) [] o.e = "recv" -> Recv [] o.e = "drop" -> Drop
       [] o.e = "feed" -> Feed(o) [] o.e = "close" -> Close [] o.e = "tick" -> Tick(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
\* Each request seen has the configured headers and those of its kind.
HeadsOk(q) == q.at = "end" \/ (q.good /\ q.heads = cfg.heads)
ResMatches(r) ==
  /\ r.k = res'.k /\ r.m = res'.m
  /\ (res'.k = "wait" \/ r.up = res'.up)
  /\ Len(r.seen) = Len(res'.seen) /\ \A x \in DOMAIN r.seen : r.seen[x].at = res'.seen[x] /\ HeadsOk(r.seen[x])
(******************************* properties *******************************)
StreamUp == stream => phase = "up"
WaitsForCause == op.k = "recv" => events = <<>> /\ answers = <<>> /\ phase # "over"
SendEnds == op.k = "send" => op.left > 0
NothingLost == [][res'.k = "got" \/ phase' = "over" \/ (Len(events') >= Len(events) /\ Len(answers') >= Len(answers))]_vars
=============================================================================
