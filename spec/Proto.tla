------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* Pending requests of several connections (src/shared/protocol.rs).        *)
(* Each connection is one Protocol instance with its transport's name;      *)
(* receiver n is what the n-th registration handed to its caller.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [conns: connection -> transport name]
  waiting,  \* <<connection, id>> -> receiver
  cnt,      \* receivers handed out
  oc,       \* receiver -> outcome not yet seen
  gone,     \* receivers whose caller has gone away
  res
vars == <<cfg, waiting, cnt, oc, gone, res>>
Empty == [x \in {} |-> 0]
InitWith(c) ==
  /\ cfg = [conns |-> c.conns] /\ waiting = Empty /\ cnt = 0 /\ oc = Empty /\ gone = {}
  /\ res = [k |-> "none"]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Ok == [k |-> "ok"]
Owner(n) == CHOOSE x \in DOMAIN waiting : waiting[x] = n
Settled(n, v) == IF n \in gone THEN oc ELSE (n :> v) @@ oc

\* registering an id that is already waiting replaces the earlier wait
Reg(c, id) ==
  LET key == <<c, id>> IN
  /\ cnt' = cnt + 1
  /\ oc' = IF key \in DOMAIN waiting THEN Settled(waiting[key], "closed") ELSE oc
  /\ waiting' = (key :> cnt + 1) @@ waiting
  /\ res' = [k |-> "ok", n |-> cnt + 1] /\ UNCHANGED <<cfg, gone>>
Finish(c, id, v) ==
  LET key == <<c, id>> IN
  IF key \in DOMAIN waiting
  THEN oc' = Settled(waiting[key], v) /\ waiting' = Drop(waiting, {key})
  ELSE UNCHANGED <<oc, waiting>>
Comp(c, id, v) == Finish(c, id, v) /\ res' = Ok /\ UNCHANGED <<cfg, cnt, gone>>
\* a response that arrived on transport t
CompT(c, id, v, t) ==
  /\ IF t = cfg.conns[c] THEN Finish(c, id, v) ELSE UNCHANGED <<oc, waiting>>
  /\ res' = [k |-> "ok", done |-> t = cfg.conns[c] /\ <<c, id>> \in DOMAIN waiting]
  /\ UNCHANGED <<cfg, cnt, gone>>
Cancel(c, id) == Finish(c, id, "closed") /\ res' = Ok /\ UNCHANGED <<cfg, cnt, gone>>
Leave(n) ==
  /\ gone' = (IF n <= cnt THEN gone \cup {n} ELSE gone) /\ oc' = Drop(oc, {n})
  /\ res' = Ok /\ UNCHANGED <<cfg, waiting, cnt>>
Look == /\ res' = [k |-> "ok", outs |-> oc] /\ oc' = Empty
        /\ UNCHANGED <<cfg, waiting, cnt, gone>>
Apply(o) ==
  CASE o.e = "reg"    -> Reg(o.c, o.id)
    [] o.e = "comp"   -> Comp(o.c, o.id, o.v)
    [] o.e = "compt"  -> CompT(o.c, o.id, o.v, o.t)
    [] o.e = "cancel" -> Cancel(o.c, o.id)
    [] o.e = "leave"  -> Leave(o.n)
    [] o.e = "look"   -> Look
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) ==
  IF "outs" \in DOMAIN res'
  THEN /\ {r.outs[k].n : k \in DOMAIN r.outs} = DOMAIN res'.outs
       /\ Len(r.outs) = Cardinality(DOMAIN res'.outs)
       /\ \A k \in DOMAIN r.outs : r.outs[k].v = res'.outs[r.outs[k].n]
  ELSE r = res'
(************************ properties of the design ************************)
OneWaiter == \A x, y \in DOMAIN waiting : waiting[x] = waiting[y] => x = y
Undecided == \A x \in DOMAIN waiting : waiting[x] \notin DOMAIN oc
OutcomeFixed == [][\A n \in DOMAIN oc \cap DOMAIN oc' : oc'[n] = oc[n]]_vars
\* an outcome comes to a waiting receiver only
OnlyWaiting == [][\A n \in DOMAIN oc' \ DOMAIN oc : \E x \in DOMAIN waiting : waiting[x] = n]_vars
=============================================================================
