----------------------------- MODULE AuthClient -----------------------------
(***************************************************************************)
(* The OAuth client (src/client/auth.rs): finding out what an issuer        *)
(* offers, with retries, and asking for tokens.  The issuer answers a       *)
(* discovery according to a plan, one answer per try, the last one for      *)
(* ever.  Time passes only in "tick".                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,  \* max: tries, delay: time between them
  op,   \* the discovery that lasts: plan, doc, path, tries so far, time left to wait (0: it waits for an answer)
  res
vars == <<cfg, op, res>>
Idle == [on |-> FALSE]
InitWith(c) == cfg = c /\ op = Idle /\ res = [k |-> "none"]

Largest(a, b) == IF a > b THEN a ELSE b
Tries == Largest(1, cfg.max)
\* "ok": the document; "cut": hangs up; "none": nobody there; "mute": no answer; others: an answer that is of no use
IsUseless(a) == a \in {"junk", "less"} \/ SubSeq(a, 1, 1) = "s"   \* s...: an HTTP status other than success, or no document
Answer(o) == o.plan[IF o.tries < Len(o.plan) THEN o.tries + 1 ELSE Len(o.plan)]
Asked(o) == [at |-> "GET " \o o.path, form |-> "", auth |-> "", accept |-> "application/json"]
\* w: [op, seen, k, doc]
Try(w) ==
  LET a == Answer(w.op)
      v == [w EXCEPT !.op.tries = @ + 1, !.seen = IF a = "none" THEN @ ELSE Append(@, Asked(w.op))]
      end(k, d) == [v EXCEPT !.op = Idle, !.k = k, !.doc = d]
  IN CASE a = "ok" -> end("got", w.op.doc)
       [] IsUseless(a) -> end("err", "")
       [] a = "mute" -> [v EXCEPT !.op.left = 0]
       [] a \in {"cut", "none"} -> IF v.op.tries >= Tries THEN end("err", "") ELSE [v EXCEPT !.op.left = cfg.delay]
RECURSIVE Pass(_, _)
Pass(w, d) ==
  IF d = 0 \/ ~w.op.on THEN w
  ELSE IF w.op.left = 0 THEN w
  ELSE LET e == IF d < w.op.left THEN d ELSE w.op.left
           v == [w EXCEPT !.op.left = @ - e]
       IN Pass(IF v.op.left = 0 THEN Try(v) ELSE v, d - e)
World == [op |-> op, seen |-> <<>>, k |-> "none", doc |-> ""]
Become(w) == op' = w.op /\ res' = [k |-> IF w.op.on THEN "wait" ELSE w.k, doc |-> w.doc, seen |-> w.seen]

Paths == [bare |-> "", slash |-> "", slashes |-> "", sub |-> "/a/b", subslash |-> "/a/b"]
Discover(o) == ~op.on /\ Become(Try([World EXCEPT !.op =
  [on |-> TRUE, plan |-> o.plan, doc |-> o.doc, path |-> Paths[o.url] \o "/.well-known/openid-configuration", tries |-> 0, left |-> 0]]))
\* o.form: the parameters, in order, as name and value; o.secret: "" for none
Opt(name, v) == IF v = "" THEN <<>> ELSE <<<<name, v>>>>
Form(o) ==
  IF o.kind = "code" THEN <<<<"grant_type", "authorization_code">>, <<"code", o.what>>, <<"client_id", o.client>>, <<"redirect_uri", o.back>>>> \o Opt("code_verifier", o.proof)
  ELSE <<<<"grant_type", "refresh_token">>, <<"refresh_token", o.what>>, <<"client_id", o.client>>>> \o Opt("scope", o.scope)
Token(o) ==
  /\ ~op.on
  /\ Become([World EXCEPT !.k = IF o.answer = "ok" THEN "got" ELSE "err", !.doc = IF o.answer = "ok" THEN o.doc ELSE "",
       !.seen = <<[at |-> "POST /token", form |-> Form(o), auth |-> IF o.secret = "" THEN "" ELSE o.client \o ":" \o o.secret, accept |-> "application/json"]>>])
Apply(o) ==
  /\ UNCHANGED cfg
  /\ CASE o.e = "discover" -> Discover(o)
       [] o.e = "token" -> Token(o)
       [] o.e = "drop" -> op.on /\ Become([World EXCEPT !.op = Idle])
       [] o.e = "tick" -> Become(Pass(World, o.d))
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
\* the parameters of a form are a set; each name comes once
SameForm(f, g) ==
  IF f = <<>> \/ g = <<>> THEN Len(f) = Len(g)
  ELSE Len(f) = Len(g) /\ {f[x] : x \in DOMAIN f} = {g[x] : x \in DOMAIN g}
SameRequest(q, r) ==
  /\ q.at = r.at /\ q.auth = r.auth /\ q.accept = r.accept
  /\ (r.at = "POST /token") => SameForm(q.form, r.form)
ResMatches(r) ==
  /\ r.k = res'.k /\ r.doc = res'.doc
  /\ Len(r.seen) = Len(res'.seen) /\ \A x \in DOMAIN r.seen : SameRequest(r.seen[x], res'.seen[x])
(******************************* properties *******************************)
Limited == op.on => op.tries <= Tries
WaitsForCause == op.on => (op.left > 0 /\ op.tries < Tries) \/ Answer([op EXCEPT !.tries = @ - 1]) = "mute"
OnlyGood == res.k = "got" => res.doc # ""
=============================================================================
