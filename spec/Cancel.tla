------------------------------- MODULE Cancel -------------------------------
(***************************************************************************)
(* Request cancellation (src/server/cancellation.rs and its use by the      *)
(* request handlers of src/server/mod.rs).                                  *)
(* A request in flight owns a cancellation signal; holders keep handles to  *)
(* signals.  Cancelling a request fires its signal and tells the peer.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  reg,     \* request id -> signal registered for it
  sig,     \* handle -> signal it observes
  ids,     \* handle -> the request id it was made for
  fired,   \* signals that have fired
  next,    \* next signal
  notes,   \* notifications sent since last looked at: <<id, reason>>
  res
vars == <<reg, sig, ids, fired, next, notes, res>>
InitWith(c) ==
  /\ reg = [x \in {} |-> 0] /\ sig = <<>> /\ ids = <<>> /\ fired = {} /\ next = 1 /\ notes = <<>>
  /\ res = [k |-> "none"]
Ok == [k |-> "ok"]
Without(id) == [x \in DOMAIN reg \ {id} |-> reg[x]]

\* a request starts: its new signal is registered and its handler gets a handle
Create(id) ==
  /\ reg' = (id :> next) @@ reg
  /\ sig' = Append(sig, next) /\ ids' = Append(ids, id) /\ next' = next + 1
  /\ res' = [k |-> "ok", h |-> Len(sig')]
  /\ UNCHANGED <<fired, notes>>
Cancel(id, why) ==
  /\ IF id \in DOMAIN reg
     THEN /\ reg' = Without(id) /\ fired' = fired \cup {reg[id]} /\ notes' = Append(notes, <<id, why>>)
     ELSE UNCHANGED <<reg, fired, notes>>
  /\ res' = Ok /\ UNCHANGED <<sig, ids, next>>
\* the request is over
Drop(id) ==
  /\ reg' = Without(id) /\ res' = Ok
  /\ UNCHANGED <<sig, ids, fired, next, notes>>
Finish(h) ==
  /\ reg' = IF ids[h] \in DOMAIN reg /\ reg[ids[h]] = sig[h] THEN Without(ids[h]) ELSE reg
  /\ res' = Ok /\ UNCHANGED <<sig, ids, fired, next, notes>>
Get(id) ==
  /\ IF id \in DOMAIN reg
     THEN sig' = Append(sig, reg[id]) /\ ids' = Append(ids, id) /\ res' = [k |-> "ok", h |-> Len(sig')]
     ELSE UNCHANGED <<sig, ids>> /\ res' = [k |-> "none", h |-> 0]
  /\ UNCHANGED <<reg, fired, next, notes>>
\* a holder fires its signal itself
Self(h) ==
  /\ fired' = IF h \in DOMAIN sig THEN fired \cup {sig[h]} ELSE fired
  /\ res' = Ok /\ UNCHANGED <<reg, sig, ids, next, notes>>
IsCancelled(id) ==
  /\ res' = [k |-> "ok", b |-> id \in DOMAIN reg /\ reg[id] \in fired]
  /\ UNCHANGED <<reg, sig, ids, fired, next, notes>>
Clear ==
  /\ fired' = fired \cup {reg[id] : id \in DOMAIN reg}
  /\ reg' = [x \in {} |-> 0] /\ res' = Ok
  /\ UNCHANGED <<sig, ids, next, notes>>
\* what everybody sees: which handles have fired, what the peer was told
Look ==
  /\ res' = [k |-> "ok", fired |-> {h \in DOMAIN sig : sig[h] \in fired}, notes |-> notes]
  /\ notes' = <<>> /\ UNCHANGED <<reg, sig, ids, fired, next>>

Apply(o) ==
  CASE o.e = "create" -> Create(o.id)
    [] o.e = "cancel" -> Cancel(o.id, o.why)
    [] o.e = "drop"   -> Drop(o.id)
    [] o.e = "finish" -> Finish(o.h)
    [] o.e = "get"    -> Get(o.id)
    [] o.e = "self"   -> Self(o.h)
    [] o.e = "is"     -> IsCancelled(o.id)
    [] o.e = "clear"  -> Clear
    [] o.e = "look"   -> Look
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
\* notifications are compared as a bag: concurrent ones have no order
BagEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Cardinality({n \in DOMAIN a : a[n] = a[k]}) = Cardinality({n \in DOMAIN b : b[n] = a[k]})
ResMatches(r) ==
  IF "notes" \in DOMAIN res'
  THEN /\ {r.fired[n] : n \in DOMAIN r.fired} = res'.fired
       /\ (r.told => BagEq(r.notes, res'.notes))
  ELSE r = res'

(************************ properties of the design ************************)
FiresOnlyRegistered == [][\A x \in fired' \ fired : x \in {reg[id] : id \in DOMAIN reg} \cup {sig[h] : h \in DOMAIN sig}]_vars
\* a signal the peer was told about is no longer registered, so it cannot be told again
ToldOnce == [][Len(notes') > Len(notes) => LET id == notes'[Len(notes')][1] IN id \in DOMAIN reg /\ id \notin DOMAIN reg']_vars
FiredStays == [][fired \subseteq fired']_vars
=============================================================================
