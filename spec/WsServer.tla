------------------------------ MODULE WsServer ------------------------------
(***************************************************************************)
(* The WebSocket server transport (src/server/transport/websocket.rs) and  *)
(* the peers that connect to it, one after the other.  A peer writes raw   *)
(* frames; what each peer has seen is part of every result.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [unmasked]: unmasked frames are accepted
  cur,    \* the peer being served (0: none, before the first and after closing)
  npeer,  \* peers so far
  live,   \* the current peer's connection is up
  queue,  \* messages from the current peer, not received yet
  res
vars == <<cfg, cur, npeer, live, queue, res>>
InitWith(c) == cfg = c /\ cur = 0 /\ npeer = 0 /\ live = FALSE /\ queue = <<>> /\ res = [k |-> "none"]
NoMsg == [k |-> "", n |-> 0, t |-> ""]

\* what a frame does: a message, an answer to the peer, the end of the connection, or nothing
Message(f) == f.f \in {"text", "frag"} \/ (f.f = "unmasked" /\ cfg.unmasked)
Ends(f) == f.f \in {"close", "drop", "big", "badutf", "reserved"} \/ (f.f = "unmasked" /\ ~cfg.unmasked)
RECURSIVE Until(_)
Until(fs) == IF fs = <<>> \/ Ends(fs[1]) THEN <<>> ELSE <<fs[1]>> \o Until(Tail(fs))
Got(fs) == LET q == SelectSeq(Until(fs), Message) IN [i \in DOMAIN q |-> q[i].m]
Pongs(fs) == LET q == SelectSeq(Until(fs), LAMBDA f : f.f = "ping" \/ f.f = "frag") IN [i \in DOMAIN q |-> "pong" \o ToString(q[i].m.n)]
Kills(fs) == \E i \in DOMAIN fs : Ends(fs[i])

Wire(m) == m.k \o ToString(m.n) \o m.t
\* k: outcome; m: message received; seen: what peers saw (peer, items)
Out(k, m, seen) == res' = [k |-> k, m |-> m, seen |-> seen, up |-> cur' # 0 /\ live']
At(p, items) == IF items = <<>> THEN <<>> ELSE <<[at |-> p, items |-> items]>>

\* a new peer takes the place of the one before, which is told so
Accept ==
  /\ npeer' = npeer + 1 /\ cur' = npeer' /\ live' = TRUE /\ queue' = <<>>
  /\ Out("ok", NoMsg, IF cur # 0 /\ live THEN At(cur, <<"gone">>) ELSE <<>>)
\* somebody connects who is no WebSocket peer
BadAccept == UNCHANGED <<cur, npeer, live, queue>> /\ Out("err", NoMsg, <<>>)
Send(m) ==
  /\ UNCHANGED <<cur, npeer, live, queue>>
  /\ IF cur # 0 /\ live THEN Out("ok", NoMsg, At(cur, <<Wire(m)>>)) ELSE Out("err", NoMsg, <<>>)
\* several messages one after the other, then perhaps the end
SendAll(ms, bye) ==
  LET w == [i \in DOMAIN ms |-> Wire(ms[i])]
      on == cur # 0 /\ live IN
  /\ UNCHANGED <<npeer>>
  /\ IF bye THEN cur' = 0 /\ live' = FALSE /\ queue' = <<>> ELSE UNCHANGED <<cur, live, queue>>
  /\ Out(IF on \/ ms = <<>> THEN "ok" ELSE "err", NoMsg, IF on THEN At(cur, w \o (IF bye THEN <<"gone">> ELSE <<>>)) ELSE <<>>)
Receive ==
  /\ UNCHANGED <<cur, npeer, live>>
  /\ IF cur # 0 /\ queue # <<>> THEN queue' = Tail(queue) /\ Out("ok", queue[1], <<>>)
     ELSE UNCHANGED queue /\ Out(IF cur # 0 /\ live THEN "wait" ELSE "err", NoMsg, <<>>)
\* the current peer writes frames; a receive may already be waiting for them
Peer(fs, waiting) ==
  LET got == Got(fs)
      all == queue \o got
      items == Pongs(fs) \o (IF Kills(fs) THEN <<"gone">> ELSE <<>>) IN
  /\ cur # 0 /\ live /\ UNCHANGED <<cur, npeer>>
  /\ live' = ~Kills(fs)
  /\ IF ~waiting THEN queue' = all /\ Out("ok", NoMsg, At(cur, items))
     ELSE IF all # <<>> THEN queue' = Tail(all) /\ Out("ok", all[1], At(cur, items))
     ELSE UNCHANGED queue /\ Out(IF live' THEN "wait" ELSE "err", NoMsg, At(cur, items))

Apply(o) ==
  /\ UNCHANGED cfg
  /\ CASE o.e = "accept" -> IF o.good THEN Accept ELSE BadAccept
       [] o.e = "send"   -> Send(o.m)
       [] o.e = "sendall" -> SendAll(o.ms, o.bye)
       [] o.e = "recv"   -> Receive
       [] o.e = "peer"   -> Peer(o.fs, o.waiting)
       [] o.e = "close"  -> SendAll(<<>>, TRUE)
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(******************************* properties *******************************)
OnlyLive == res.k # "none" => (res.up <=> cur # 0 /\ live)
\* a send succeeds exactly when a peer gets the message
SendTruth == [][(res'.k # "none" /\ Len(res'.seen) > 0 /\ res'.k = "err") => cur # 0]_vars
QueueOnlyOfCurrent == cur = 0 => queue = <<>>
=============================================================================
