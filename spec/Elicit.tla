------------------------------- MODULE Elicit -------------------------------
(***************************************************************************)
(* Requests for user input (src/server/elicitation.rs).                     *)
(* A caller asks and waits; it gets one outcome: an answer, a cancellation  *)
(* or a timeout.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [timeout]
  open,     \* requests can be sent
  now,
  pend,     \* id -> caller waiting for its answer
  wait,     \* caller -> [id, until]: waiting callers
  oc,       \* caller -> its outcome, not yet seen
  sent,     \* requests sent since last looked at: <<id, prompt>>
  res
vars == <<cfg, open, now, pend, wait, oc, sent, res>>
InitWith(c) ==
  /\ cfg = [timeout |-> c.timeout] /\ open = c.open /\ now = 0
  /\ pend = [x \in {} |-> 0] /\ wait = [x \in {} |-> 0] /\ oc = [x \in {} |-> 0] /\ sent = <<>>
  /\ res = [k |-> "none"]
Ok == [k |-> "ok"]
Err == [k |-> "err"]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Resp(id, v, c) == [o |-> "resp", id |-> id, v |-> v, c |-> c]
Fail(why) == [o |-> why, id |-> "", v |-> "", c |-> FALSE]
\* callers S get outcomes f[n]
Settle(S, f(_)) == /\ oc' = [n \in DOMAIN oc \cup S |-> IF n \in S THEN f(n) ELSE oc[n]]
                   /\ wait' = Drop(wait, S)

\* caller n asks; an id that is already waiting is taken over by the new caller
Ask(n, id, prompt) ==
  /\ n \notin DOMAIN wait \cup DOMAIN oc
  /\ IF ~open
     THEN LET old == IF id \in DOMAIN pend THEN {pend[id]} ELSE {} IN
          /\ oc' = [m \in DOMAIN oc \cup old \cup {n} |-> IF m \in old THEN Fail("closed") ELSE IF m = n THEN Fail("unsent") ELSE oc[m]]
          /\ wait' = Drop(wait, old) /\ pend' = Drop(pend, {id})
          /\ UNCHANGED sent
     ELSE /\ pend' = (id :> n) @@ pend
          /\ LET old == IF id \in DOMAIN pend THEN {pend[id]} ELSE {} IN
             /\ oc' = [m \in DOMAIN oc \cup old |-> IF m \in old THEN Fail("closed") ELSE oc[m]]
             /\ wait' = (n :> [id |-> id, until |-> now + cfg.timeout]) @@ Drop(wait, old)
          /\ sent' = Append(sent, <<id, prompt>>)
  /\ res' = Ok /\ UNCHANGED <<cfg, open, now>>
Answer(id, v, c) ==
  /\ IF id \in DOMAIN pend
     THEN /\ Settle({pend[id]}, LAMBDA n : Resp(id, v, c)) /\ pend' = Drop(pend, {id}) /\ res' = Ok
     ELSE res' = Err /\ UNCHANGED <<pend, wait, oc>>
  /\ UNCHANGED <<cfg, open, now, sent>>
Cancel(id) ==
  /\ IF id \in DOMAIN pend
     THEN /\ Settle({pend[id]}, LAMBDA n : Resp(id, "none", TRUE)) /\ pend' = Drop(pend, {id}) /\ res' = Ok
     ELSE res' = Err /\ UNCHANGED <<pend, wait, oc>>
  /\ UNCHANGED <<cfg, open, now, sent>>
CancelAll ==
  /\ Settle(DOMAIN wait, LAMBDA n : Resp(wait[n].id, "none", TRUE))
  /\ pend' = [x \in {} |-> 0] /\ res' = Ok /\ UNCHANGED <<cfg, open, now, sent>>
\* time passes, alone or with the timeouts it causes
Time(d) == now' = now + d /\ res' = Ok /\ UNCHANGED <<cfg, open, pend, wait, oc, sent>>
Tick ==
  LET late == {n \in DOMAIN wait : wait[n].until <= now + 1} IN
  /\ now' = now + 1
  /\ Settle(late, LAMBDA n : Fail("timeout"))
  /\ pend' = Drop(pend, {wait[n].id : n \in late})
  /\ res' = Ok /\ UNCHANGED <<cfg, open, sent>>
\* nobody takes requests any more
Shut == open' = FALSE /\ res' = Ok /\ UNCHANGED <<cfg, now, pend, wait, oc, sent>>
Count == res' = [k |-> "ok", n |-> Cardinality(DOMAIN pend)] /\ UNCHANGED <<cfg, open, now, pend, wait, oc, sent>>
\* what has been seen since the last look
Look == /\ res' = [k |-> "ok", sent |-> sent, outs |-> oc]
        /\ sent' = <<>> /\ oc' = [x \in {} |-> 0]
        /\ UNCHANGED <<cfg, open, now, pend, wait>>

Apply(o) ==
  CASE o.e = "ask"    -> Ask(o.n, o.id, o.prompt)
    [] o.e = "answer" -> Answer(o.id, o.v, o.c)
    [] o.e = "cancel" -> Cancel(o.id)
    [] o.e = "cancelall" -> CancelAll
    [] o.e = "tick"   -> Tick
    [] o.e = "time"   -> Time(o.d)
    [] o.e = "shut"   -> Shut
    [] o.e = "count"  -> Count
    [] o.e = "look"   -> Look
    [] OTHER -> FALSE

\* seen concurrently, asking starts at one moment and ends at a later one
PreApply(o)  == o.e = "wait" /\ Ask(o.n, o.id, o.prompt)
PostApply(o) ==
  /\ o.e = "wait"
  /\ IF o.n \in DOMAIN oc THEN res' = oc[o.n] /\ oc' = Drop(oc, {o.n}) /\ UNCHANGED <<pend, wait>>
     ELSE IF o.n \in DOMAIN wait /\ wait[o.n].until > now
     THEN res' = [k |-> "hang"] /\ UNCHANGED <<oc, pend, wait>>      \* still waiting, rightly, when everything else is over
     ELSE /\ o.n \in DOMAIN wait
          /\ pend' = Drop(pend, {wait[o.n].id}) /\ wait' = Drop(wait, {o.n})
          /\ res' = Fail("timeout") /\ UNCHANGED oc
  /\ UNCHANGED <<cfg, open, now, sent>>

BagEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Cardinality({n \in DOMAIN a : a[n] = a[k]}) = Cardinality({n \in DOMAIN b : b[n] = a[k]})
ResMatches(r) ==
  IF "outs" \in DOMAIN res'
  THEN /\ BagEq(r.sent, res'.sent)
       /\ {r.outs[k].n : k \in DOMAIN r.outs} = DOMAIN res'.outs
       /\ Len(r.outs) = Cardinality(DOMAIN res'.outs)
       /\ \A k \in DOMAIN r.outs : r.outs[k].r = res'.outs[r.outs[k].n]
  ELSE r = res'

(************************ properties of the design ************************)
OneWaiterPerId == \A id \in DOMAIN pend : pend[id] \in DOMAIN wait /\ wait[pend[id]].id = id
EveryWaiterReachable == \A n \in DOMAIN wait : wait[n].id \in DOMAIN pend /\ pend[wait[n].id] = n
NotBoth == DOMAIN wait \cap DOMAIN oc = {}
OutcomeFixed == [][\A n \in DOMAIN oc \cap DOMAIN oc' : oc'[n] = oc[n]]_vars
OwnAnswer == [][\A n \in DOMAIN oc' \ DOMAIN oc : oc'[n].o = "resp" => n \in DOMAIN wait /\ oc'[n].id = wait[n].id]_vars
NoneOverdue == \A n \in DOMAIN wait : wait[n].until > now
=============================================================================
