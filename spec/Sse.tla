------------------------------- MODULE Sse -------------------------------
(***************************************************************************)
(* Event streams (src/shared/sse_parser.rs, and the reader in http.rs).    *)
(* A stream is a sequence of characters; some have names: "CR", "LF",      *)
(* "NUL", "SP", and u2, u3, u4 for characters of several bytes.  (For the  *)
(* HTTP reader the "characters" are bytes.)  A chunk is any part of the    *)
(* stream: parsing goes on character by character, so that the result      *)
(* cannot depend on how the stream is cut.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ps,     \* the parser: [line, cr, id, event, data, retry, last]
  hist,  \* the whole stream so far (used to check the specification itself)
  cfg, res
vars == <<ps, hist, cfg, res>>

\* optional values: <<>> or <<v>>
Fresh == [id |-> <<>>, event |-> <<>>, data |-> <<>>, retry |-> <<>>]
Empty == [line |-> <<>>, cr |-> FALSE, ev |-> Fresh, last |-> <<>>]
InitWith(c) == ps = Empty /\ hist = <<>> /\ cfg = [api |-> c.api] /\ res = [k |-> "none"]

\* names of fields
Data == <<"d", "a", "t", "a">>
Event == <<"e", "v", "e", "n", "t">>
Id == <<"i", "d">>
Retry == <<"r", "e", "t", "r", "y">>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Chars(q) == {q[n] : n \in 1..Len(q)}

\* the position of the first colon (0: none)
Colon(l) == IF ":" \notin Chars(l) THEN 0 ELSE CHOOSE n \in 1..Len(l) : l[n] = ":" /\ \A m \in 1..n-1 : l[m] # ":"
Field(l) == IF Colon(l) = 0 THEN l ELSE SubSeq(l, 1, Colon(l) - 1)
Value(l) == IF Colon(l) = 0 THEN <<>>
            ELSE LET v == SubSeq(l, Colon(l) + 1, Len(l)) IN
                 IF v # <<>> /\ Head(v) = "SP" THEN Tail(v) ELSE v

\* a line that is not empty
TakeLine(x, l) ==
  LET f == Field(l)
      v == Value(l) IN
  IF Head(l) = ":" THEN x
  ELSE IF f = Event THEN [x EXCEPT !.ev.event = <<v>>]
  ELSE IF f = Data THEN [x EXCEPT !.ev.data = IF @ = <<>> THEN <<v>> ELSE <<@[1] \o <<"LF">> \o v>>]
  ELSE IF f = Id /\ "NUL" \notin Chars(v) THEN [x EXCEPT !.ev.id = <<v>>, !.last = <<v>>]
  ELSE IF f = Retry /\ v # <<>> /\ Chars(v) \subseteq Digits THEN [x EXCEPT !.ev.retry = <<v>>]
  ELSE x

\* the event that an empty line dispatches
Dispatched(x) == [id |-> IF x.ev.id # <<>> THEN x.ev.id ELSE x.last, event |-> x.ev.event, data |-> x.ev.data[1], retry |-> x.ev.retry]

\* one character: <<parser, events>>
Char(x, c) ==
  IF c = "LF" /\ x.cr THEN <<[x EXCEPT !.cr = FALSE], <<>>>>
  ELSE IF c \in {"CR", "LF"}
       THEN LET y == [x EXCEPT !.line = <<>>, !.cr = (c = "CR")] IN
            IF x.line # <<>> THEN <<TakeLine(y, x.line), <<>>>>
            ELSE <<[y EXCEPT !.ev = Fresh], IF x.ev.data = <<>> THEN <<>> ELSE <<Dispatched(x)>>>>
       ELSE <<[x EXCEPT !.line = Append(@, c), !.cr = FALSE], <<>>>>
RECURSIVE Parse(_, _)
Parse(x, q) ==
  IF q = <<>> THEN <<x, <<>>>>
  ELSE LET s == Char(x, Head(q))
           t == Parse(s[1], Tail(q)) IN <<t[1], s[2] \o t[2]>>

\* over HTTP, what arrives is the data of each event
Shown(evs) == IF cfg.api = "http" THEN [n \in 1..Len(evs) |-> evs[n].data] ELSE evs
Feed(q) ==
  LET t == Parse(ps, q) IN
  /\ ps' = t[1] /\ hist' = hist \o q
  /\ res' = [k |-> "ok", events |-> Shown(t[2]), last |-> IF cfg.api = "http" THEN <<>> ELSE t[1].last]
  /\ UNCHANGED cfg
\* forgets the event under way; the last event id stays
Reset == /\ ps' = [Empty EXCEPT !.last = ps.last] /\ hist' = <<>> /\ UNCHANGED cfg
         /\ res' = [k |-> "ok", events |-> <<>>, last |-> ps.last]

\* events written out and read by another parser: ids persist, the rest is as it was
RECURSIVE Reread(_, _)
Reread(evs, last) ==
  IF evs = <<>> THEN <<>>
  ELSE LET e == Head(evs)
           i == IF e.id # <<>> THEN e.id ELSE last IN <<[e EXCEPT !.id = i]>> \o Reread(Tail(evs), i)
Write(evs) == res' = [k |-> "ok", events |-> Reread(evs, <<>>)] /\ UNCHANGED <<ps, hist, cfg>>

Apply(o) ==
  CASE o.e = "feed"  -> Feed(o.chunk)
    [] o.e = "reset" -> Reset
    [] o.e = "write" -> Write(o.events)
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(******************************* properties *******************************)
\* where the stream is cut does not matter
CutFree == Parse(Empty, hist)[1] = ps \/ (ps.last # <<>> /\ [Parse(Empty, hist)[1] EXCEPT !.last = ps.last] = ps)
\* neither does the kind of line ending
RECURSIVE Unix(_)
Unix(q) == IF q = <<>> THEN <<>>
           ELSE IF Head(q) = "CR" THEN <<"LF">> \o (IF Len(q) > 1 /\ q[2] = "LF" THEN Unix(SubSeq(q, 3, Len(q))) ELSE Unix(Tail(q)))
           ELSE <<Head(q)>> \o Unix(Tail(q))
EndingFree == Parse(Empty, hist)[2] = Parse(Empty, Unix(hist))[2]
===========================================================================
