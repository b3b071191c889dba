------------------------------- MODULE Stdio -------------------------------
(***************************************************************************)
(* The stdio transport (src/shared/stdio.rs).  Messages are framed by      *)
(* header lines, one of which announces the length of the body in bytes.   *)
(* The input is a sequence of bytes: a byte is a character or a name       *)
(* ("CR", "LF", "SP", "TAB", "xff", ...).  A receive takes the first whole *)
(* frame of what has come so far; it can be given up while it waits.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  msgs,    \* messages by name: their JSON
  buf,     \* input not received yet
  eof,     \* the input has ended
  closed,
  pending, \* a receive is waiting
  res
vars == <<msgs, buf, eof, closed, pending, res>>
InitWith(c) == msgs = c.msgs /\ buf = <<>> /\ eof = FALSE /\ closed = FALSE /\ pending = FALSE /\ res = [k |-> "none"]

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E d \in 1..10 : Digits[d] = c
DigitOf(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
Blank(c) == c \in {"SP", "TAB", "CR"}
RECURSIVE Trim(_)
Trim(q) == IF q = <<>> THEN q ELSE IF Blank(Head(q)) THEN Trim(Tail(q)) ELSE IF Blank(q[Len(q)]) THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q
Name == <<"C", "o", "n", "t", "e", "n", "t", "-", "L", "e", "n", "g", "t", "h", ":", "SP">>
\* more than can ever arrive, and more than a length can be
Huge == 2000000000
None == -1
RECURSIVE Number(_)
Number(q) == IF q = <<>> THEN 0 ELSE 10 * Number(SubSeq(q, 1, Len(q) - 1)) + DigitOf(q[Len(q)])
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ Head(q) = "0" THEN Strip(Tail(q)) ELSE q
\* the length a header line announces (None: none)
Announced(l) ==
  IF Len(l) <= Len(Name) THEN None
  ELSE IF SubSeq(l, 1, Len(Name)) # Name THEN None
  ELSE LET q == Trim(SubSeq(l, Len(Name) + 1, Len(l))) IN
       IF q = <<>> \/ \E x \in 1..Len(q) : ~IsDigit(q[x]) THEN None
       ELSE LET d == Strip(q) IN IF Len(d) > 20 THEN None ELSE IF Len(d) > 9 THEN Huge ELSE Number(d)
LineEnd(b, from) == IF \E x \in from..Len(b) : b[x] = "LF" THEN CHOOSE x \in from..Len(b) : b[x] = "LF" /\ \A y \in from..x - 1 : b[y] # "LF" ELSE 0
\* the headers of the first frame of b: where its body starts (0: they are not complete) and its length
RECURSIVE Headers(_, _, _)
Headers(b, from, len) ==
  LET e == LineEnd(b, from) IN
  IF e = 0 THEN [at |-> 0, len |-> None]
  ELSE LET l == Trim(SubSeq(b, from, e - 1))
           a == Announced(l)
       IN IF l = <<>> THEN [at |-> e + 1, len |-> len]
          ELSE Headers(b, e + 1, IF a = None THEN len ELSE a)

\* a body may have white space around the JSON
JsonBlank(c) == Blank(c) \/ c = "LF"
RECURSIVE Bare(_)
Bare(q) == IF q = <<>> THEN q ELSE IF JsonBlank(Head(q)) THEN Bare(Tail(q)) ELSE IF JsonBlank(q[Len(q)]) THEN Bare(SubSeq(q, 1, Len(q) - 1)) ELSE q
Meaning(body) == LET j == Bare(body) IN IF \E x \in DOMAIN msgs : msgs[x] = j THEN CHOOSE x \in DOMAIN msgs : msgs[x] = j ELSE "none"
\* A receive over the input b: what comes of it, what is left, and whether the connection is over
Receive(b, ended) ==
  LET h == Headers(b, 1, None)
      rest(at) == SubSeq(b, at, Len(b))
  IN IF h.at > 0 /\ h.len = None THEN [k |-> "err", m |-> "none", b |-> rest(h.at), over |-> FALSE]
     ELSE IF h.at > 0 /\ Len(b) - h.at + 1 >= h.len
     THEN LET m == Meaning(SubSeq(b, h.at, h.at + h.len - 1))
          IN [k |-> IF m = "none" THEN "err" ELSE "got", m |-> m, b |-> rest(h.at + h.len), over |-> FALSE]
     ELSE IF ended THEN [k |-> "err", m |-> "none", b |-> b, over |-> TRUE]
     ELSE [k |-> "wait", m |-> "none", b |-> b, over |-> FALSE]

\* out: frames written (header lines, announced length, actual length, message); up: the transport says it is connected
Res(k, m, up) == [k |-> k, m |-> m, up |-> up, out |-> <<>>]
Quiet == res' = Res("ok", "none", ~closed)
\* input arrives or ends, or a receive starts
Go(waiting, b, ended) ==
  /\ eof' = ended /\ UNCHANGED msgs
  /\ IF ~waiting THEN buf' = b /\ pending' = FALSE /\ UNCHANGED closed /\ Quiet
     ELSE IF closed THEN buf' = b /\ pending' = FALSE /\ UNCHANGED closed /\ res' = Res("err", "none", FALSE)
     ELSE LET r == Receive(b, ended) IN
          /\ buf' = r.b /\ pending' = (r.k = "wait") /\ closed' = r.over
          /\ res' = Res(r.k, r.m, ~r.over)
Feed(o) == ~eof /\ Go(pending, buf \o o.b, FALSE)
End == ~eof /\ Go(pending, buf, TRUE)
Recv == ~pending /\ Go(TRUE, buf, eof)
\* the receive is given up
Drop == pending /\ pending' = FALSE /\ UNCHANGED <<msgs, buf, eof, closed>> /\ res' = Res("ok", "none", TRUE)
Send(o) == /\ ~pending /\ UNCHANGED <<msgs, buf, eof, closed, pending>>
           /\ res' = IF closed THEN Res("err", "none", FALSE) ELSE [Res("ok", "none", TRUE) EXCEPT !.out = <<o.m>>]
Close == ~pending /\ closed' = TRUE /\ UNCHANGED <<msgs, buf, eof, pending>> /\ res' = Res("ok", "none", FALSE)
Apply(o) ==
  CASE o.e = "feed" -> Feed(o) [] o.e = "eof" -> End [] o.e = "recv" -> Recv [] o.e = "drop" -> Drop
    [] o.e = "send" -> Send(o) [] o.e = "close" -> Close
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
\* Each frame written: its announced length is that of its body, which is the message sent.
\* While a receive waits nobody can ask whether the transport is connected.
FrameOk(f, m) == f.m = m /\ f.announced = f.actual /\ f.headers = 1
ResMatches(r) ==
  /\ r.k = res'.k /\ r.m = res'.m
  /\ (r.k = "wait" \/ r.up = res'.up)
  /\ Len(r.out) = Len(res'.out) /\ \A x \in 1..Len(r.out) : FrameOk(r.out[x], res'.out[x])
(******************************* properties *******************************)
\* a waiting receive has no whole frame to take, and a closed transport none waiting
WaitsForCause == pending => Receive(buf, eof).k = "wait"
ClosedIdle == closed => ~pending
\* what has been fed is received or still there: nothing is lost by giving up
NothingLost == [][(pending /\ ~pending' /\ res'.k = "ok") => buf' = buf]_vars
=============================================================================
