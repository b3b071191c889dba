----------------------------- MODULE EventLog -----------------------------
(***************************************************************************)
(* Event store and session resumption (src/shared/event_store.rs).         *)
(* A log shared by several sessions keeps the newest events; managers      *)
(* record the messages of their session in it and resume from tokens.      *)
(* Events are named by the message they carry, tokens by the script.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, now, log, ctr, toks, res
vars == <<cfg, now, log, ctr, toks, res>>

EmptyFn == [x \in {} |-> 0]
TokenLife == 86400000      \* a token is good for a day
Max(a, b) == IF a > b THEN a ELSE b

InitWith(c) ==
  /\ cfg = [max |-> c.max, age |-> c.age, managers |-> c.managers]
  /\ now = 0 /\ log = <<>>
  /\ ctr = [m \in DOMAIN c.managers |-> 0]     \* the next sequence number of each manager
  /\ toks = EmptyFn
  /\ res = [k |-> "none"]

Sess(m) == cfg.managers[m]
Ids(l) == {l[n].id : n \in 1..Len(l)}
Of(l, s) == SelectSeq(l, LAMBDA x : x.s = s)

RECURSIVE DropOld(_, _)
DropOld(l, t) == IF l # <<>> /\ Head(l).ts < t THEN DropOld(Tail(l), t) ELSE l
Newest(l, n) == IF Len(l) > n THEN SubSeq(l, Len(l) - n + 1, Len(l)) ELSE l
\* the log after storing one more event
Kept(x) == DropOld(Newest(Append(log, x), cfg.max), now - cfg.age)

\* the events that follow one: all that are left if that one is gone
After(id) == IF id \in Ids(log)
             THEN LET n == CHOOSE n \in 1..Len(log) : log[n].id = id IN SubSeq(log, n + 1, Len(log))
             ELSE log
First(l, n) == IF n >= 0 /\ Len(l) > n THEN SubSeq(l, 1, n) ELSE l

Same == UNCHANGED <<cfg, now, log, ctr, toks>>
Ok == [k |-> "ok"]
Err == [k |-> "err"]
List(l) == [k |-> "ok", l |-> l]

Store(id, s, dir, seq, ts) ==
  /\ log' = Kept([id |-> id, s |-> s, dir |-> dir, seq |-> seq, ts |-> ts])
  /\ res' = Ok /\ UNCHANGED <<cfg, now, ctr, toks>>

\* a manager records a message: a store that fails leaves no hole in the numbering
Rec(m, dir, id, fail) ==
  /\ IF fail THEN res' = Err /\ UNCHANGED <<log, ctr>>
     ELSE /\ log' = Kept([id |-> id, s |-> Sess(m), dir |-> dir, seq |-> ctr[m], ts |-> now])
          /\ ctr' = [ctr EXCEPT ![m] = @ + 1]
          /\ res' = Ok
  /\ UNCHANGED <<cfg, now, toks>>

Since(id, lim) == res' = List(First(After(id), lim)) /\ Same
Latest == res' = (IF log = <<>> THEN [k |-> "none"] ELSE [k |-> "ok", id |-> log[Len(log)].id]) /\ Same
Clear(ts) ==
  /\ log' = DropOld(log, ts)
  /\ res' = [k |-> "ok", n |-> Len(log) - Len(log')]
  /\ UNCHANGED <<cfg, now, ctr, toks>>

State(x) == [s |-> x.s, last |-> x.id, next |-> x.seq + 1]
\* a token for the newest event of the log l
Issue(n, l) ==
  /\ IF l = <<>> THEN res' = Err /\ UNCHANGED toks
     ELSE LET st == State(l[Len(l)]) IN
          /\ toks' = (n :> [st |-> st, exp |-> now + TokenLife]) @@ toks
          /\ res' = [k |-> "ok", s |-> st.s, last |-> st.last, at |-> now, exp |-> now + TokenLife]
  /\ UNCHANGED <<cfg, now, log, ctr>>
Token(m, n) == Issue(n, Of(log, Sess(m)))       \* asked for by a manager: for its session
StoreToken(n) == Issue(n, log)                  \* asked for at the store

Live(n) == n \in DOMAIN toks /\ now <= toks[n].exp
Check(n) ==
  res' = (IF Live(n) THEN [k |-> "ok", s |-> toks[n].st.s, last |-> toks[n].st.last, next |-> toks[n].st.next]
          ELSE [k |-> "none"]) /\ Same

\* only a token of the own session counts.  The numbering goes on after everything known of the session.
Resume(m, n) ==
  /\ IF Live(n) /\ toks[n].st.s = Sess(m)
     THEN LET l == Of(After(toks[n].st.last), Sess(m)) IN
          /\ ctr' = [ctr EXCEPT ![m] = Max(@, Max(toks[n].st.next, IF l = <<>> THEN 0 ELSE l[Len(l)].seq + 1))]
          /\ res' = List(l)
     ELSE res' = Err /\ UNCHANGED ctr
  /\ UNCHANGED <<cfg, now, log, toks>>

Pending(m, id) == res' = List(SelectSeq(After(id), LAMBDA x : x.dir = "out" /\ x.s = Sess(m))) /\ Same

Advance(d) == now' = now + d /\ res' = Ok /\ UNCHANGED <<cfg, log, ctr, toks>>

Apply(o) ==
  CASE o.e = "store"   -> Store(o.id, o.s, o.dir, o.seq, o.ts)
    [] o.e = "rec"     -> Rec(o.m, o.dir, o.id, o.fail)
    [] o.e = "since"   -> Since(o.id, o.lim)
    [] o.e = "latest"  -> Latest
    [] o.e = "clear"   -> Clear(o.ts)
    [] o.e = "token"   -> Token(o.m, o.n)
    [] o.e = "stoken"  -> StoreToken(o.n)
    [] o.e = "check"   -> Check(o.n)
    [] o.e = "resume"  -> Resume(o.m, o.n)
    [] o.e = "pending" -> Pending(o.m, o.id)
    [] o.e = "advance" -> Advance(o.d)
    [] o.e = "look"    -> Since("nothing", -1)
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(******************************* properties *******************************)
\* what the design promises, checked on the specification itself
Bounded == Len(log) <= cfg.max
\* with one manager per session, the numbers of a session rise by one from event to event
NoGapsNoRepeats ==
  \A s \in {cfg.managers[m] : m \in DOMAIN cfg.managers} :
    LET l == Of(log, s) IN \A n \in 1..Len(l)-1 : l[n+1].seq = l[n].seq + 1
NumbersAhead ==
  \A m \in DOMAIN cfg.managers : \A n \in 1..Len(log) : log[n].s = Sess(m) => log[n].seq < ctr[m]
\* the log only loses events at its old end
OnlyOldestLost == [][\E n \in 0..Len(log) :
                      LET l == SubSeq(log, n + 1, Len(log)) IN
                      \/ log' = l
                      \/ Len(log') > 0 /\ SubSeq(log', 1, Len(log') - 1) = l]_vars
===========================================================================
