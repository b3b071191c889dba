------------------------------- MODULE Watch -------------------------------
(***************************************************************************)
(* The resource watcher (src/server/resource_watcher.rs): reports changes  *)
(* of registered files below a directory once they have been left alone    *)
(* for a while.  A path is relative to the directory; time is in           *)
(* milliseconds and passes in steps of Step.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [pats, ign: patterns, max: limit of registered resources, wait: ms]
  reg,    \* registered resources: path -> description
  files,  \* files there are
  on,     \* watching
  pend,   \* changes not yet reported: path -> time since the last change
  res
vars == <<cfg, reg, files, on, pend, res>>
Step == 100
None == <<>>
Set(q) == {q[x] : x \in DOMAIN q}
InitWith(c) ==
  /\ cfg = [pats |-> c.pats, ign |-> c.ign, max |-> c.max, wait |-> c.wait]
  /\ reg = None /\ files = Set(c.files) /\ on = FALSE /\ pend = None /\ res = [k |-> "none"]

(******************************** patterns ********************************)
RECURSIVE G(_, _)
Rest(q, x) == SubSeq(q, x, Len(q))
G(g, q) ==
  IF g = "" THEN q = ""
  ELSE IF Len(g) >= 2 /\ SubSeq(g, 1, 2) = "**"
  THEN IF Len(g) = 2 THEN TRUE
       ELSE \/ G(Rest(g, 4), q)
            \/ \E x \in 1..Len(q) : SubSeq(q, x, x) = "/" /\ G(Rest(g, 4), Rest(q, x + 1))
  ELSE IF SubSeq(g, 1, 1) = "*" THEN G(Rest(g, 2), q) \/ (q # "" /\ SubSeq(q, 1, 1) # "/" /\ G(g, Rest(q, 2)))
  ELSE q # "" /\ G(Rest(g, 2), Rest(q, 2)) /\ (SubSeq(g, 1, 1) = SubSeq(q, 1, 1) \/ (SubSeq(g, 1, 1) = "?" /\ SubSeq(q, 1, 1) # "/"))
Watched(f) == (\E x \in DOMAIN cfg.pats : G(cfg.pats[x], f)) /\ ~(\E x \in DOMAIN cfg.ign : G(cfg.ign[x], f))

(********************************* changes ********************************)
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Less(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Changed(S) == LET T == {f \in S : on /\ Watched(f)} IN [x \in DOMAIN pend \cup T |-> IF x \in T THEN 0 ELSE pend[x]]
\* files touched by an operation, and the files there are afterwards
Touched(o) ==
  CASE o.what = "write" -> {o.f}
    [] o.what = "read" -> {}
    [] o.f \notin files -> {}
    [] o.what = "mv" -> IF o.f = o.g THEN {} ELSE {o.f, o.g}
    [] OTHER -> {o.f}
After(o) ==
  CASE o.what = "write" -> files \cup {o.f}
    [] o.what = "rm" -> files \ {o.f}
    [] o.what = "mv" /\ o.f \in files -> (files \ {o.f}) \cup {o.g}
    [] OTHER -> files
Quiet == res' = [k |-> "ok", told |-> {}]
Change(o) == files' = After(o) /\ pend' = Changed(Touched(o)) /\ Quiet /\ UNCHANGED <<cfg, reg, on>>

\* What has been left alone for long enough is looked at within a step, and reported if registered.
Tick(o) ==
  LET aged == [x \in DOMAIN pend |-> pend[x] + Step]
      may == {x \in DOMAIN aged : aged[x] >= cfg.wait}
      must == {x \in may : aged[x] >= cfg.wait + Step}
  IN \E P \in SUBSET may :
     /\ must \subseteq P
     /\ pend' = Less(aged, P)
     /\ res' = [k |-> "ok", told |-> P \cap DOMAIN reg]
     /\ UNCHANGED <<cfg, reg, files, on>>
\* The files are written and left alone while nobody takes the reports; registering and listing go on meanwhile.
\* flood: many other files are written before; what was still to be reported may then be reported apart.
Busy(o) ==
  LET all == DOMAIN Changed(Set(o.fs)) IN
  /\ files' = files \cup Set(o.fs) /\ pend' = None
  /\ res' = [k |-> "ok", told |-> all \cap DOMAIN reg, again |-> IF "flood" \in DOMAIN o /\ o.flood THEN Cardinality(DOMAIN pend) ELSE 0]
  /\ UNCHANGED <<cfg, reg, on>>
Add(o) == /\ reg' = IF o.f \in DOMAIN reg \/ Cardinality(DOMAIN reg) < cfg.max
                    THEN [x \in DOMAIN reg \cup {o.f} |-> IF x = o.f THEN o.d ELSE reg[x]] ELSE reg
          /\ Quiet /\ UNCHANGED <<cfg, files, on, pend>>
Del(o) == reg' = Less(reg, {o.f}) /\ Quiet /\ UNCHANGED <<cfg, files, on, pend>>
List == res' = [k |-> "list", all |-> {<<x, reg[x]>> : x \in DOMAIN reg}] /\ UNCHANGED <<cfg, reg, files, on, pend>>
\* a file (if any) is written as soon as the watcher says that it has started
Start(o) == /\ ~on /\ on' = TRUE /\ Quiet /\ UNCHANGED <<cfg, reg>>
            /\ IF o.f = "" THEN UNCHANGED <<files, pend>>
               ELSE files' = files \cup {o.f} /\ pend' = [x \in {y \in {o.f} : Watched(y)} |-> 0]
Stop == on' = FALSE /\ pend' = None /\ Quiet /\ UNCHANGED <<cfg, reg, files>>
\* the watcher is given up; who waits for reports is told that there will be none
Drop == on' = FALSE /\ pend' = None /\ res' = [k |-> "over"] /\ UNCHANGED <<cfg, reg, files>>
Apply(o) ==
  CASE o.e = "chg" -> Change(o) [] o.e = "tick" -> Tick(o) [] o.e = "busy" -> Busy(o) [] o.e = "add" -> Add(o) [] o.e = "del" -> Del(o)
    [] o.e = "list" -> List [] o.e = "start" -> Start(o) [] o.e = "stop" -> Stop [] o.e = "drop" -> Drop
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
ResMatches(r) ==
  /\ r.k = res'.k
  /\ r.k = "ok" => Set(r.told) = res'.told /\ Len(r.told) \in Cardinality(res'.told)..Cardinality(res'.told) + (IF "again" \in DOMAIN res' THEN res'.again ELSE 0)
  /\ r.k = "list" => {<<r.all[x].f, r.all[x].d>> : x \in DOMAIN r.all} = res'.all /\ Len(r.all) = Cardinality(res'.all)
(******************************* properties *******************************)
Limit == Cardinality(DOMAIN reg) <= cfg.max
NoneOverdue == \A x \in DOMAIN pend : pend[x] < cfg.wait + Step
OnlyWatched == \A x \in DOMAIN pend : on /\ Watched(x)
OnlyRegistered == res.k = "ok" => res.told \subseteq DOMAIN reg
\* nothing is reported before it has been left alone, and a change is reported or still to come while it is registered
Settled == [][(res'.k = "ok" /\ on /\ on') => \A x \in DOMAIN pend : x \notin DOMAIN pend' => x \in res'.told \/ x \notin DOMAIN reg]_vars
=============================================================================
