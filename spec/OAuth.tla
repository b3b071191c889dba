------------------------------- MODULE OAuth -------------------------------
(***************************************************************************)
(* In-memory OAuth provider (src/server/auth/oauth2.rs) and the access     *)
(* checks built on it (src/server/auth/middleware.rs).                     *)
(* Each provider call takes effect atomically.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  now,       \* seconds
  pool,      \* names available for fresh credentials: [cl, co, to] (sets)
  clients,   \* id -> [secret, redirects, rtypes, scopes]
  codes,     \* outstanding authorization codes
  toks,      \* access token -> [client, user, scopes, exp]
  refr,      \* refresh token -> access token
  issued,    \* every credential ever issued, incl. codes
  res
vars == <<now, pool, clients, codes, toks, refr, issued, res>>

CodeLife == 600
TokenLife == 3600
Supported == {"read", "write"}

Range(f) == {f[x] : x \in DOMAIN f}
EmptyFn == [x \in {} |-> 0]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

InitWith(c) ==
  /\ now = 0
  /\ pool = [cl |-> Range(c.cl), co |-> Range(c.co), to |-> Range(c.to)]
  /\ clients = EmptyFn /\ codes = EmptyFn /\ toks = EmptyFn /\ refr = EmptyFn
  /\ issued = {}
  /\ res = [k |-> "none"]

Err == [k |-> "err"]

(******************************** provider ********************************)
\* secrets: "gen:<client>" stands for a generated one
Register(id, secret, redirects, rtypes, scopes) ==
  /\ \E cid \in (IF id # "" THEN {id} ELSE pool.cl \ DOMAIN clients) :
       LET sec == IF secret = "none" THEN "gen:" \o cid ELSE secret IN
       /\ clients' = (cid :> [secret |-> sec, redirects |-> Range(redirects),
                              rtypes |-> Range(rtypes), scopes |-> scopes]) @@ clients
       /\ res' = [k |-> "ok", id |-> cid, secret |-> sec]
  /\ UNCHANGED <<now, pool, codes, toks, refr, issued>>

GetClient(id) ==
  /\ res' = IF id \in DOMAIN clients
            THEN [k |-> "ok", id |-> id, secret |-> clients[id].secret]
            ELSE [k |-> "none"]
  /\ UNCHANGED <<now, pool, clients, codes, toks, refr, issued>>

ValidateAuthorization(id, redirect, rtype, scopes) ==
  /\ res' = IF /\ id \in DOMAIN clients
               /\ redirect \in clients[id].redirects
               /\ rtype \in clients[id].rtypes
               /\ Range(scopes) \subseteq Supported
            THEN [k |-> "ok"] ELSE Err
  /\ UNCHANGED <<now, pool, clients, codes, toks, refr, issued>>

\* ch: proof-key challenge or "none"; m: its method or "none" (meaning plain)
CreateCode(id, user, redirect, scopes, ch, m) ==
  /\ \E c \in pool.co \ issued :
       /\ codes' = (c :> [client |-> id, user |-> user, redirect |-> redirect, scopes |-> scopes,
                          ch |-> ch, m |-> m, exp |-> now + CodeLife]) @@ codes
       /\ issued' = issued \cup {c}
       /\ res' = [k |-> "ok", code |-> c]
  /\ UNCHANGED <<now, pool, clients, toks, refr>>

\* the table of access tokens after granting t in table tt
Granted(tt, t, cl, user, scopes) ==
  (t.a :> [client |-> cl, user |-> user, scopes |-> scopes, exp |-> now + TokenLife]) @@ tt
GrantRes(t, scopes) == [k |-> "ok", a |-> t.a, r |-> t.r, exp |-> TokenLife, scopes |-> scopes]
Fresh == {t \in pool.to : t.a \notin issued}

CreateToken(cl, user, scopes) ==
  /\ \E t \in Fresh :
       /\ toks' = Granted(toks, t, cl, user, scopes)
       /\ refr' = (t.r :> t.a) @@ refr
       /\ issued' = issued \cup {t.a, t.r}
       /\ res' = GrantRes(t, scopes)
  /\ UNCHANGED <<now, pool, clients, codes>>

ProofOk(c, v) ==
  \/ c.ch = "none"
  \/ /\ v # "none"
     /\ \/ c.m \in {"none", "plain"} /\ v = c.ch
        \/ c.m = "S256" /\ c.ch = "H:" \o v

\* presenting a code uses it up, whatever comes of it
Exchange(grant, code, id, redirect, v) ==
  /\ IF grant # "authorization_code" \/ code \notin DOMAIN codes
     THEN res' = Err /\ UNCHANGED <<codes, toks, refr, issued>>
     ELSE LET c == codes[code] IN
       /\ codes' = Drop(codes, {code})
       /\ IF c.exp >= now /\ c.client = id /\ c.redirect = redirect /\ ProofOk(c, v)
          THEN \E t \in Fresh :
                 /\ toks' = Granted(toks, t, c.client, c.user, c.scopes)
                 /\ refr' = (t.r :> t.a) @@ refr
                 /\ issued' = issued \cup {t.a, t.r}
                 /\ res' = GrantRes(t, c.scopes)
          ELSE res' = Err /\ UNCHANGED <<toks, refr, issued>>
  /\ UNCHANGED <<now, pool, clients>>

\* rotation: the old pair dies, a new pair is issued
Refresh(r) ==
  /\ IF r \in DOMAIN refr /\ refr[r] \in DOMAIN toks
     THEN LET o == toks[refr[r]] IN
          \E t \in Fresh :
            /\ toks' = Granted(Drop(toks, {refr[r]}), t, o.client, o.user, o.scopes)
            /\ refr' = (t.r :> t.a) @@ Drop(refr, {r})
            /\ issued' = issued \cup {t.a, t.r}
            /\ res' = GrantRes(t, o.scopes)
     ELSE res' = Err /\ UNCHANGED <<toks, refr, issued>>
  /\ UNCHANGED <<now, pool, clients, codes>>

\* revoking either token of a pair ends both (the refresh token is useless without the access token)
Revoke(x) ==
  /\ IF x \in DOMAIN toks THEN toks' = Drop(toks, {x}) /\ UNCHANGED refr
     ELSE IF x \in DOMAIN refr THEN toks' = Drop(toks, {refr[x]}) /\ refr' = Drop(refr, {x})
     ELSE UNCHANGED <<toks, refr>>
  /\ res' = [k |-> "ok"]
  /\ UNCHANGED <<now, pool, clients, codes, issued>>

Valid(a) == a \in DOMAIN toks /\ toks[a].exp >= now
Validate(a) ==
  /\ res' = IF Valid(a)
            THEN [k |-> "ok", client |-> toks[a].client, user |-> toks[a].user,
                  scopes |-> toks[a].scopes, exp |-> toks[a].exp]
            ELSE Err
  /\ UNCHANGED <<now, pool, clients, codes, toks, refr, issued>>

Advance(d) ==
  /\ now' = now + d
  /\ res' = [k |-> "ok"]
  /\ UNCHANGED <<pool, clients, codes, toks, refr, issued>>

(***************************** access checks ******************************)
(* A check is a tree:                                                      *)
(*   [t |-> "bearer", req]  [t |-> "cc"]  [t |-> "stub", ok, scopes, id]   *)
(*   [t |-> "scope", all, scopes, inner]  [t |-> "comp", any, list]        *)
(* Its outcome: ok with an identity, or an error code.  ran lists the stub *)
(* checks consulted, in order.                                             *)
Grants(cl, user, scopes, ran) == [k |-> "ok", client |-> cl, user |-> user, scopes |-> scopes, code |-> 0, ran |-> ran]
Denied(code, ran) == [k |-> "err", client |-> "", user |-> "", scopes |-> <<>>, code |-> code, ran |-> ran]
AuthRequired == -32003
Forbidden == -32004
Anonymous(ran) == Grants("anonymous", "anonymous", <<>>, ran)

RECURSIVE Judge(_, _), JudgeList(_, _, _, _, _)
\* a: the presented credentials [scheme ("absent" when none), token, cid, csec]
Judge(m, a) ==
  CASE m.t = "bearer" ->
         IF a.scheme = "absent" THEN (IF m.req THEN Denied(AuthRequired, <<>>) ELSE Anonymous(<<>>))
         ELSE IF a.scheme = "bearer" /\ a.token # "none" /\ Valid(a.token)
         THEN Grants(toks[a.token].client, toks[a.token].user, toks[a.token].scopes, <<>>)
         ELSE Denied(AuthRequired, <<>>)
    [] m.t = "cc" ->
         IF /\ a.scheme # "absent" /\ a.cid \in DOMAIN clients
            /\ clients[a.cid].secret = a.csec
         THEN Grants(a.cid, a.cid, clients[a.cid].scopes, <<>>)
         ELSE Denied(AuthRequired, <<>>)
    [] m.t = "stub" -> IF m.ok THEN Grants(m.id, m.id, m.scopes, <<m.id>>) ELSE Denied(m.code, <<m.id>>)
    [] m.t = "scope" ->
         LET o == Judge(m.inner, a)
             have == Range(o.scopes)
             need == Range(m.scopes)
         IN IF o.k = "err" THEN o
            ELSE IF (IF m.all THEN need \subseteq have ELSE need \cap have # {}) THEN o
            ELSE Denied(Forbidden, o.ran)
    [] m.t = "comp" -> JudgeList(m, a, 1, <<>>, AuthRequired)
\* the first member that grants wins; otherwise the last refusal
JudgeList(m, a, n, ran, code) ==
  IF n > Len(m.list) THEN (IF m.any THEN Denied(code, ran) ELSE Anonymous(ran))
  ELSE LET o == Judge(m.list[n], a) IN
       IF o.k = "ok" THEN [o EXCEPT !.ran = ran \o @]
       ELSE JudgeList(m, a, n + 1, ran \o o.ran, o.code)

RECURSIVE Required(_)
Required(m) ==
  CASE m.t = "bearer" -> m.req
    [] m.t \in {"cc", "stub"} -> TRUE
    [] m.t = "scope" -> Required(m.inner)
    [] m.t = "comp" -> m.any /\ \E n \in DOMAIN m.list : Required(m.list[n])

Authenticate(m, a) ==
  /\ res' = [out |-> Judge(m, a), req |-> Required(m)]
  /\ UNCHANGED <<now, pool, clients, codes, toks, refr, issued>>

Apply(o) ==
  CASE o.e = "register" -> Register(o.id, o.secret, o.redirects, o.rtypes, o.scopes)
    [] o.e = "getclient" -> GetClient(o.id)
    [] o.e = "authorize" -> ValidateAuthorization(o.id, o.redirect, o.rtype, o.scopes)
    [] o.e = "code" -> CreateCode(o.id, o.user, o.redirect, o.scopes, o.ch, o.m)
    [] o.e = "token" -> CreateToken(o.id, o.user, o.scopes)
    [] o.e = "exchange" -> Exchange(o.grant, o.code, o.id, o.redirect, o.v)
    [] o.e = "refresh" -> Refresh(o.r0)
    [] o.e = "revoke" -> Revoke(o.x)
    [] o.e = "validate" -> Validate(o.a0)
    [] o.e = "advance" -> Advance(o.d)
    [] o.e = "auth" -> Authenticate(o.mw, o.cred)
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(************************ properties of the design ************************)
OnlyIssued == DOMAIN toks \cup DOMAIN refr \cup DOMAIN codes \subseteq issued
\* every live access token is redeemable by at most one refresh token
OneRefresh == \A x, y \in DOMAIN refr : refr[x] = refr[y] => x = y
\* what is gone (used, rotated, revoked) stays gone
NeverBack == [][\A x \in issued :
                  /\ x \notin DOMAIN toks => x \notin DOMAIN toks'
                  /\ x \notin DOMAIN refr => x \notin DOMAIN refr'
                  /\ x \notin DOMAIN codes => x \notin DOMAIN codes']_vars
\* tokens appear only by using up a code or a refresh token, or by direct issue
IssuePaid == [][DOMAIN toks' \ DOMAIN toks # {} =>
                  \/ Cardinality(DOMAIN codes') < Cardinality(DOMAIN codes)
                  \/ \E r \in DOMAIN refr : r \notin DOMAIN refr'
                  \/ DOMAIN toks \subseteq DOMAIN toks' /\ codes' = codes]_vars
IdentityKept == [][\A x \in DOMAIN toks \cap DOMAIN toks' : toks'[x] = toks[x]]_vars
=============================================================================
