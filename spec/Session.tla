------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Session manager (src/shared/session.rs).                                *)
(*                                                                         *)
(* One action per public call; each call takes effect atomically at one    *)
(* instant, which is what concurrent callers rely on.  res is the result   *)
(* of the last call, including the callbacks it fired (cb).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  now,      \* clock, ms
  cfg,      \* [max, timeout, ids]: limit, lifetime, pool of session names
  live,     \* id -> [client, auth, data, created, last, exp]
  used,     \* every id ever issued
  res
vars == <<now, cfg, live, used, res>>

InitWith(c) ==
  /\ now = 0
  /\ cfg = [max |-> c.max, timeout |-> c.timeout,
            ids |-> {c.ids[n] : n \in DOMAIN c.ids}]
  /\ live = [x \in {} |-> 0]
  /\ used = {}
  /\ res = [k |-> "none"]

Ids == DOMAIN live
Snap(id, s) == [id |-> id, client |-> s.client, auth |-> s.auth, data |-> s.data,
                created |-> s.created, last |-> s.last, exp |-> s.exp]
NoSession == [id |-> "none", client |-> "none", auth |-> "none", data |-> "none",
              created |-> 0, last |-> 0, exp |-> 0]
Ok(ses, cb)  == [k |-> "ok", ses |-> ses, cb |-> cb]
Fail(cb)     == [k |-> "err", ses |-> NoSession, cb |-> cb]
Expired(id)  == live[id].exp < now
Remove(S)    == [x \in Ids \ S |-> live[x]]

Create(client) ==
  /\ IF Cardinality(Ids) >= cfg.max
     THEN res' = Fail(<<>>) /\ UNCHANGED <<live, used>>
     ELSE \E id \in cfg.ids \ used :
            LET s == [client |-> client, auth |-> "none", data |-> "none",
                      created |-> now, last |-> now, exp |-> now + cfg.timeout]
            IN /\ live' = (id :> s) @@ live
               /\ used' = used \cup {id}
               /\ res' = Ok(Snap(id, s), << <<"create", id>> >>)
  /\ UNCHANGED <<now, cfg>>

Touch(id, s) == [s EXCEPT !.last = now]

\* a lookup counts as activity
Get(id) ==
  /\ IF id \in Ids
     THEN /\ live' = [live EXCEPT ![id] = Touch(id, @)]
          /\ res' = Ok(Snap(id, live'[id]), <<>>)
     ELSE UNCHANGED live /\ res' = Fail(<<>>)
  /\ UNCHANGED <<now, cfg, used>>

\* an expired session is removed when it is found to be expired
Validate(id) ==
  /\ IF id \notin Ids THEN UNCHANGED live /\ res' = Fail(<<>>)
     ELSE IF Expired(id)
     THEN live' = Remove({id}) /\ res' = Fail(<< <<"destroy", id>> >>)
     ELSE /\ live' = [live EXCEPT ![id] = Touch(id, @)]
          /\ res' = Ok(Snap(id, live'[id]), <<>>)
  /\ UNCHANGED <<now, cfg, used>>

Change(id, f(_)) ==
  /\ IF id \in Ids
     THEN live' = [live EXCEPT ![id] = Touch(id, f(@))] /\ res' = Ok(NoSession, <<>>)
     ELSE UNCHANGED live /\ res' = Fail(<<>>)
  /\ UNCHANGED <<now, cfg, used>>
Update(id, v) == Change(id, LAMBDA s : [s EXCEPT !.data = v])
Auth(id, v)   == Change(id, LAMBDA s : [s EXCEPT !.auth = v])

Destroy(id) ==
  /\ IF id \in Ids
     THEN live' = Remove({id}) /\ res' = Ok(NoSession, << <<"destroy", id>> >>)
     ELSE UNCHANGED live /\ res' = Fail(<<>>)
  /\ UNCHANGED <<now, cfg, used>>

\* the expiry callbacks of one clean-up are a set (their order is not fixed)
Cleanup ==
  LET dead == {id \in Ids : Expired(id)} IN
  /\ live' = Remove(dead)
  /\ res' = [k |-> "ok", ids |-> {<<"expire", id>> : id \in dead}]
  /\ UNCHANGED <<now, cfg, used>>

Active ==
  /\ res' = [k |-> "ok", all |-> {Snap(id, live[id]) : id \in Ids}]
  /\ UNCHANGED <<now, cfg, live, used>>
Count ==
  /\ res' = [k |-> "ok", n |-> Cardinality(Ids)]
  /\ UNCHANGED <<now, cfg, live, used>>

Advance(d) ==
  /\ now' = now + d
  /\ res' = [k |-> "ok"]
  /\ UNCHANGED <<cfg, live, used>>

\* Request middleware: the first session cookie wins, then the session header.
\* ck: cookies as <<name, value>>; x: the header's value, or "none".
Process(ck, x) ==
  LET hits == {n \in DOMAIN ck : ck[n][1] = "mcp-session-id"}
      id   == IF hits # {} THEN ck[CHOOSE n \in hits : \A m \in hits : n <= m][2] ELSE x
  IN Get(id)

Apply(o) ==
  CASE o.e = "create"   -> Create(o.client)
    [] o.e = "get"      -> Get(o.id)
    [] o.e = "validate" -> Validate(o.id)
    [] o.e = "update"   -> Update(o.id, o.v)
    [] o.e = "auth"     -> Auth(o.id, o.v)
    [] o.e = "destroy"  -> Destroy(o.id)
    [] o.e = "cleanup"  -> Cleanup
    [] o.e = "active"   -> Active
    [] o.e = "count"    -> Count
    [] o.e = "advance"  -> Advance(o.d)
    [] o.e = "process"  -> Process(o.ck, o.x)
    [] OTHER -> FALSE

(* A validation that finds an expired session first touches it, then removes it: between the two
   steps others may still see (or remove) it.  Its answer is a refusal either way. *)
PreApply(o) ==
  /\ o.e = "validate" /\ o.id \in Ids /\ Expired(o.id)
  /\ live' = [live EXCEPT ![o.id] = Touch(o.id, @)]
  /\ UNCHANGED <<now, cfg, used, res>>
PostApply(o) ==
  /\ IF o.id \in Ids
     THEN live' = Remove({o.id}) /\ res' = Fail(<< <<"destroy", o.id>> >>)
     ELSE UNCHANGED live /\ res' = Fail(<<>>)
  /\ UNCHANGED <<now, cfg, used>>

(* recorded results carry sequences where the specification has sets *)
ResMatches(r) ==
  IF "all" \in DOMAIN res' THEN
     r.k = "ok" /\ {r.all[n] : n \in DOMAIN r.all} = res'.all /\ Len(r.all) = Cardinality(res'.all)
  ELSE IF "ids" \in DOMAIN res' THEN
     r.k = "ok" /\ {r.ids[n] : n \in DOMAIN r.ids} = res'.ids /\ Len(r.ids) = Cardinality(res'.ids)
  ELSE r = res'

(************************ properties of the design ************************)
Limit == Cardinality(Ids) <= cfg.max
IdsIssued == Ids \subseteq used
NeverResurrected == [][\A id \in used : id \notin Ids => id \notin Ids']_vars
IssuedOnce == [][\A id \in Ids' \ Ids : id \notin used]_vars
\* while a session lives, its identity and (absent an update of it) its content stay
ContentKept == [][\A id \in Ids \cap Ids' :
                   /\ live'[id].created = live[id].created
                   /\ live'[id].exp = live[id].exp
                   /\ live'[id].client = live[id].client
                   /\ live'[id].auth # live[id].auth => live'[id].data = live[id].data]_vars
GoneOnlyByEnd == [][\A id \in Ids \ Ids' :
                     \/ Expired(id)
                     \/ "cb" \in DOMAIN res' /\ res'.cb = << <<"destroy", id>> >>]_vars
=============================================================================
