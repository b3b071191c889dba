-------------------------------- MODULE Roots --------------------------------
(* Root registry (src/server/roots.rs, Server::register_root). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  regs,    \* registration number -> [uri, name], in order of registration
  live,    \* registrations that have not been unregistered
  notes,   \* list-changed announcements since last looked at
  res
vars == <<regs, live, notes, res>>
InitWith(c) == regs = <<>> /\ live = {} /\ notes = 0 /\ res = [k |-> "none"]
\* o.file: whether the location is a file location
Register(o) ==
  /\ IF o.file
     THEN /\ regs' = Append(regs, [uri |-> o.uri, name |-> o.name])
          /\ live' = live \cup {Len(regs')} /\ notes' = notes + 1
          /\ res' = [k |-> "ok", h |-> Len(regs')]
     ELSE res' = [k |-> "err", h |-> 0] /\ UNCHANGED <<regs, live, notes>>
Unregister(h) ==
  /\ IF h \in live THEN live' = live \ {h} /\ notes' = notes + 1 ELSE UNCHANGED <<live, notes>>
  /\ res' = [k |-> "ok", h |-> 0] /\ UNCHANGED regs
\* the roots listed: one per live registration
List == /\ res' = [k |-> "ok", list |-> [h \in live |-> regs[h]]]
        /\ UNCHANGED <<regs, live, notes>>
Has  == /\ res' = [k |-> "ok", b |-> live # {}] /\ UNCHANGED <<regs, live, notes>>
\* asking the peer for its roots returns what it answers
Ask(o) == /\ res' = [k |-> IF o.good THEN "ok" ELSE "err", asked |-> o.answer] /\ UNCHANGED <<regs, live, notes>>
Look == /\ res' = [k |-> "ok", notes |-> notes] /\ notes' = 0 /\ UNCHANGED <<regs, live>>
Apply(o) ==
  CASE o.e = "reg"   -> Register(o)
    [] o.e = "unreg" -> Unregister(o.h)
    [] o.e = "list"  -> List
    [] o.e = "has"   -> Has
    [] o.e = "ask"   -> Ask(o)
    [] o.e = "look"  -> Look
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) ==
  IF "list" \in DOMAIN res'
  THEN /\ Len(r.list) = Cardinality(DOMAIN res'.list)
       /\ \A n \in DOMAIN r.list : Cardinality({m \in DOMAIN r.list : r.list[m] = r.list[n]})
                                   = Cardinality({h \in DOMAIN res'.list : res'.list[h] = r.list[n]})
  ELSE IF "notes" \in DOMAIN res' THEN (r.told => r.notes = res'.notes)
  ELSE IF "asked" \in DOMAIN res' THEN r.k = res'.k /\ (r.k = "ok" => r.asked = res'.asked)
  ELSE r = res'
(************************ properties of the design ************************)
LiveRegistered == live \subseteq DOMAIN regs
EachChangeAnnounced == [][live' # live => notes' = notes + 1]_vars
NothingElseAnnounced == [][live' = live => notes' \in {notes, 0}]_vars
NeverBack == [][\A h \in DOMAIN regs : h \notin live => h \notin live']_vars
=============================================================================
