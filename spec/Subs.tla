-------------------------------- MODULE Subs --------------------------------
(* Resource subscriptions (src/server/subscriptions.rs, Server::subscribe_resource ...). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  strict,  \* empty names are refused (the server's own interface)
  subs,    \* set of <<resource, client>>
  notes,   \* update notifications produced since last looked at
  res
vars == <<strict, subs, notes, res>>
InitWith(c) == strict = c.strict /\ subs = {} /\ notes = <<>> /\ res = [k |-> "none"]
Ok == [k |-> "ok", n |-> 0, set |-> {}]
Val(n, S) == [k |-> "ok", n |-> n, set |-> S]
Bad(u, c) == strict /\ (u = "" \/ c = "")
Subscribers(u) == {s[2] : s \in {x \in subs : x[1] = u}}
Subscriptions(c) == {s[1] : s \in {x \in subs : x[2] = c}}

Subscribe(u, c) ==
  /\ IF Bad(u, c) THEN res' = [Ok EXCEPT !.k = "err"] /\ UNCHANGED subs
     ELSE subs' = subs \cup {<<u, c>>} /\ res' = Ok
  /\ UNCHANGED <<strict, notes>>
Unsubscribe(u, c) ==
  /\ IF Bad(u, c) THEN res' = [Ok EXCEPT !.k = "err"] /\ UNCHANGED subs
     ELSE subs' = subs \ {<<u, c>>} /\ res' = Ok
  /\ UNCHANGED <<strict, notes>>
Leave(c) == subs' = {x \in subs : x[2] # c} /\ res' = Ok /\ UNCHANGED <<strict, notes>>
\* the resource changed: announced if anybody is subscribed, to as many as are
Changed(u) ==
  /\ res' = Val(Cardinality(Subscribers(u)), {})
  /\ notes' = IF Subscribers(u) # {} THEN Append(notes, u) ELSE notes
  /\ UNCHANGED <<strict, subs>>
Query(v) == res' = v /\ UNCHANGED <<strict, subs, notes>>
Look == /\ res' = [k |-> "ok", notes |-> notes] /\ notes' = <<>> /\ UNCHANGED <<strict, subs>>

Apply(o) ==
  CASE o.e = "sub"    -> Subscribe(o.u, o.c)
    [] o.e = "unsub"  -> Unsubscribe(o.u, o.c)
    [] o.e = "leave"  -> Leave(o.c)
    [] o.e = "changed" -> Changed(o.u)
    [] o.e = "has"    -> Query(Val(IF Subscribers(o.u) # {} THEN 1 ELSE 0, {}))
    [] o.e = "of"     -> Query(Val(0, Subscriptions(o.c)))
    [] o.e = "at"     -> Query(Val(0, Subscribers(o.u)))
    [] o.e = "stats"  -> Query(Val(Cardinality(subs), {"resources:" \o ToString(Cardinality({x[1] : x \in subs})),
                                                       "clients:" \o ToString(Cardinality({x[2] : x \in subs}))}))
    [] o.e = "look"   -> Look
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
BagEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Cardinality({n \in DOMAIN a : a[n] = a[k]}) = Cardinality({n \in DOMAIN b : b[n] = a[k]})
ResMatches(r) ==
  IF "notes" \in DOMAIN res' THEN (r.told => BagEq(r.notes, res'.notes))
  ELSE r.k = res'.k /\ r.n = res'.n /\ {r.set[n] : n \in DOMAIN r.set} = res'.set /\ Len(r.set) = Cardinality(res'.set)

(************************ properties of the design ************************)
AnnouncedIffSubscribed == [][\A u \in {x[1] : x \in subs} \cup {notes'[n] : n \in DOMAIN notes'} :
    Len(notes') > Len(notes) => Subscribers(notes'[Len(notes')]) # {}]_vars
OnlyNamed == [][\A x \in (subs \ subs') \cup (subs' \ subs) : Len(notes') = Len(notes)]_vars
=============================================================================
