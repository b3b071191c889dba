------------------------------ MODULE WsClient ------------------------------
(***************************************************************************)
(* The WebSocket client transport (src/shared/websocket.rs) and the server *)
(* it connects to.  The server writes raw frames; what it has seen (tries  *)
(* to connect, messages and ends per connection, pings) is part of every   *)
(* result.  One operation of the transport runs at a time; it may last, and *)
(* can be given up.  Time passes only in "tick".                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* auto: reconnect; delay, cap: first and longest delay; max: attempts (0: no limit); ping: interval (0: none)
  mode,   \* how the server answers who connects: "good", "no" (refuses), "cut" (hangs up), "hang" (no answer)
  phase,  \* "idle" (not connected, or closed), "up", "lost"
  conn,   \* connections so far
  age,    \* time since the current one began
  queue,  \* messages from the server, not received yet
  op,     \* the operation that lasts: its kind, the stage it is in, failed attempts, time left to wait, next delay
  res
vars == <<cfg, mode, phase, conn, age, queue, op, res>>
NoMsg == [k |-> "", n |-> 0, t |-> ""]
Idle == [k |-> "none", m |-> NoMsg, stage |-> "", bad |-> 0, left |-> 0, next |-> 0]
InitWith(c) == cfg = c /\ mode = "good" /\ phase = "idle" /\ conn = 0 /\ age = 0 /\ queue = <<>> /\ op = Idle /\ res = [k |-> "none"]

Wire(m) == m.k \o ToString(m.n) \o m.t
At(c, x) == ToString(c) \o ":" \o x
Smaller(a, b) == IF a < b THEN a ELSE b
\* A step carries the changing part of the state: w = [phase, conn, age, queue, op, seen, pings, k, m].
\* k: "none" (no operation), "wait" (it lasts), "ok" (it has succeeded), "got" (m received), "err"
World == [phase |-> phase, conn |-> conn, age |-> age, queue |-> queue, op |-> op, seen |-> <<>>, pings |-> 0, k |-> "none", m |-> NoMsg]
Done(w, k, m) == [w EXCEPT !.op = Idle, !.k = k, !.m = m]
\* the operation has a live connection
OnLive(w) ==
  CASE w.op.k = "connect" -> Done(w, "ok", NoMsg)
    [] w.op.k = "send" -> Done([w EXCEPT !.seen = Append(@, At(w.conn, Wire(w.op.m)))], "ok", NoMsg)
    [] w.op.k = "recv" -> IF w.queue # <<>> THEN Done([w EXCEPT !.queue = Tail(@)], "got", w.queue[1])
                          ELSE [w EXCEPT !.k = "wait", !.op.stage = "on"]
Sleep(w) == [w EXCEPT !.k = "wait", !.op.stage = "sleep", !.op.left = w.op.next, !.op.next = Smaller(2 * w.op.next, cfg.cap)]
Attempt(w) ==
  LET v == [w EXCEPT !.seen = Append(@, "try")] IN
  CASE mode = "good" -> OnLive([v EXCEPT !.phase = "up", !.conn = @ + 1, !.age = 0])
    [] mode = "hang" -> [v EXCEPT !.k = "wait", !.op.stage = "hang"]
    [] OTHER -> LET f == [v EXCEPT !.op.bad = @ + 1] IN
                IF cfg.max > 0 /\ f.op.bad >= cfg.max THEN Done([f EXCEPT !.phase = "idle"], "err", NoMsg) ELSE Sleep(f)
\* the operation finds no live connection
Lost(w) == IF w.phase = "lost" /\ cfg.auto THEN Sleep(w) ELSE Done(w, "err", NoMsg)
Start(w) ==
  IF w.phase = "up" THEN OnLive(w)
  ELSE IF w.op.k = "connect" THEN Attempt(w)
  ELSE IF w.op.k = "recv" /\ w.queue # <<>> THEN OnLive(w)
  ELSE Lost(w)

\* frames of the server: a message each, the end of the connection, or nothing that matters
Message(f) == f.f = "text" \/ f.f = "frag"
Ends(f) == f.f \in {"close", "drop", "badutf", "reserved"}
RECURSIVE Until(_)
Until(fs) == IF fs = <<>> \/ Ends(fs[1]) THEN <<>> ELSE <<fs[1]>> \o Until(Tail(fs))
Got(fs) == LET q == SelectSeq(Until(fs), Message) IN [i \in DOMAIN q |-> q[i].m]
Pongs(fs) == LET q == SelectSeq(Until(fs), LAMBDA f : f.f = "ping" \/ f.f = "frag") IN [i \in DOMAIN q |-> At(conn, "pong" \o ToString(q[i].m.n))]
Kills(fs) == \E i \in DOMAIN fs : Ends(fs[i])
Peer(fs) ==
  LET w == [World EXCEPT !.queue = @ \o Got(fs), !.phase = IF Kills(fs) THEN "lost" ELSE "up",
                         !.seen = Pongs(fs) \o (IF Kills(fs) THEN <<At(conn, "gone")>> ELSE <<>>)]
  IN IF op.k = "none" THEN w
     ELSE IF w.queue # <<>> \/ w.phase = "up" THEN OnLive(w) ELSE Lost(w)

\* d units of time pass
Older(w, d) == IF w.phase # "up" THEN w
               ELSE [w EXCEPT !.age = @ + d, !.pings = @ + (IF cfg.ping = 0 THEN 0 ELSE (w.age + d) \div cfg.ping - w.age \div cfg.ping)]
RECURSIVE Pass(_, _)
Pass(w, d) ==
  IF d = 0 THEN w
  ELSE IF w.op.stage = "sleep"
       THEN LET e == Smaller(d, w.op.left)
                v == [Older(w, e) EXCEPT !.op.left = @ - e]
            IN Pass(IF v.op.left = 0 THEN Attempt(v) ELSE v, d - e)
       ELSE Older(w, d)

\* In the result: what the transport says of itself counts only when no operation lasts
Become(w) ==
  /\ phase' = w.phase /\ conn' = w.conn /\ queue' = w.queue /\ op' = w.op
  \* only the age within an interval matters
  /\ age' = IF w.phase = "up" /\ cfg.ping > 0 THEN w.age % cfg.ping ELSE 0
  /\ res' = [k |-> IF w.op.k = "none" THEN w.k ELSE "wait", m |-> w.m, seen |-> w.seen, pings |-> w.pings, up |-> w.phase = "up"]
Begin(k, m) == op.k = "none" /\ Become(Start([World EXCEPT !.op = [k |-> k, m |-> m, stage |-> "", bad |-> 0, left |-> 0, next |-> cfg.delay]]))
RECURSIVE Sends(_, _)
Sends(w, ms) == IF ms = <<>> THEN w ELSE Sends([w EXCEPT !.seen = Append(@, At(w.conn, Wire(ms[1])))], Tail(ms))
Apply(o) ==
  /\ UNCHANGED cfg /\ mode' = IF o.e = "mode" THEN o.m ELSE mode
  /\ CASE o.e = "connect" -> Begin("connect", NoMsg)
       [] o.e = "send" -> Begin("send", o.m)
       [] o.e = "recv" -> Begin("recv", NoMsg)
       \* many messages one after the other
       [] o.e = "sendall" -> op.k = "none" /\ phase = "up" /\ Become(Done(Sends(World, o.ms), "ok", NoMsg))
       [] o.e = "drop" -> op.k # "none" /\ Become([World EXCEPT !.op = Idle])
       [] o.e = "close" -> op.k = "none" /\ Become([World EXCEPT !.phase = "idle", !.queue = <<>>, !.k = "ok",
                                                                  !.seen = IF phase = "up" THEN <<At(conn, "gone")>> ELSE <<>>])
       [] o.e = "mode" -> Become(World)
       [] o.e = "peer" -> phase = "up" /\ Become(Peer(o.fs))
       [] o.e = "tick" -> Become(Pass(World, o.d))
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
ResMatches(r) ==
  /\ r.k = res'.k /\ r.m = res'.m /\ r.seen = res'.seen /\ r.pings = res'.pings
  /\ (res'.k = "wait" \/ r.up = res'.up)
(******************************* properties *******************************)
\* an operation waits for something that can come: input, time, an answer
WaitsForCause ==
  /\ op.stage = "on" => op.k = "recv" /\ phase = "up" /\ queue = <<>>
  /\ op.stage = "sleep" => op.left > 0 /\ op.left <= cfg.cap /\ phase # "up"
  /\ op.k = "none" <=> op.stage = ""
\* attempts stay below the limit, and nothing connects again unasked
Limited == cfg.max > 0 => op.bad < cfg.max
OnlyIfWanted == op.stage \in {"sleep", "hang"} /\ op.k # "connect" => cfg.auto
\* nothing received is lost or invented, except by closing
QueueKept == [][queue' = queue \/ res'.k = "got" \/ Len(queue') > Len(queue) \/ (phase' = "idle" /\ queue' = <<>>)]_vars
=============================================================================
