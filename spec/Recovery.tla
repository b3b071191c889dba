----------------------------- MODULE Recovery -----------------------------
(***************************************************************************)
(* Error recovery (src/error/recovery.rs): retries, fallbacks and circuit  *)
(* breakers.  Times in milliseconds.                                       *)
(* An execution consults the breaker of its operation (if there is one),   *)
(* runs the operation and acts on the outcome; other executions may come   *)
(* between these two steps.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [pol: code -> strategy, dflt: strategy, fb: operation -> outcome of its fallback, own: a breaker's settings]
  now,
  br,     \* operation -> breaker
  calls,  \* executions under way: were they let through?
  res
vars == <<cfg, now, br, calls, res>>

Min(a, b) == IF a < b THEN a ELSE b
Range(f) == {f[x] : x \in DOMAIN f}

\* a breaker with threshold ft of failures, st of successes, and timeout to
Breaker(c) == [ft |-> c.ft, st |-> c.st, to |-> c.to, state |-> "closed", fail |-> 0, suc |-> 0, last |-> 0]
InitWith(c) ==
  /\ cfg = [pol |-> c.pol, dflt |-> c.dflt, fb |-> c.fb]
  /\ now = 0
  /\ br = ("own" :> Breaker(c.own))      \* a breaker used by itself
  /\ calls = [x \in {} |-> TRUE]
  /\ res = [k |-> "none"]

(******************************** breakers ********************************)
\* may a request pass? [b: breaker afterwards, ok]
Ask(b) ==
  CASE b.state = "closed" -> [b |-> b, ok |-> TRUE]
    [] b.state = "half"   -> [b |-> b, ok |-> TRUE]
    [] b.state = "open"   -> IF now - b.last >= b.to THEN [b |-> [b EXCEPT !.state = "half", !.suc = 0], ok |-> TRUE]
                             ELSE [b |-> b, ok |-> FALSE]
Good(b) ==
  CASE b.state = "closed" -> [b EXCEPT !.fail = 0]
    [] b.state = "half"   -> IF b.suc + 1 >= b.st THEN [b EXCEPT !.state = "closed", !.fail = 0, !.suc = 0] ELSE [b EXCEPT !.suc = @ + 1]
    [] b.state = "open"   -> b           \* too late to count
Bad(b) ==
  CASE b.state = "closed" -> IF b.fail + 1 >= b.ft THEN [b EXCEPT !.state = "open", !.last = now, !.fail = 0] ELSE [b EXCEPT !.fail = @ + 1]
    [] b.state = "half"   -> [b EXCEPT !.state = "open", !.last = now, !.fail = 0]
    [] b.state = "open"   -> [b EXCEPT !.last = now]

(******************************** executions ******************************)
\* outcomes: "ok" or the code of an error; the operation succeeds when none is left
Outcome(outs, n) == IF n > Len(outs) THEN "ok" ELSE outs[n]
\* an error without a code is an internal one
Strategy(code) == LET c == IF code = "none" THEN "int" ELSE code IN
                  IF c \in DOMAIN cfg.pol THEN cfg.pol[c] ELSE cfg.dflt
\* the wait before retry n
RECURSIVE Wait(_, _)
Wait(g, n) == IF g.t = "fixed" THEN g.d
              ELSE IF n = 1 THEN Min(g.d, g.max) ELSE Min(g.max, (Wait(g, n - 1) * g.num) \div g.den)

\* the retries n, n+1, ... after a failure with code c at time t; at: when they were made
RECURSIVE Retry(_, _, _, _, _, _)
Retry(g, n, outs, at, t, c) ==
  IF n > g.n THEN [ok |-> TRUE, k |-> "err", n |-> n, code |-> c, now |-> t]
  ELSE LET w == Wait(g, n)
           u == IF n + 1 <= Len(at) THEN at[n + 1] ELSE t + w IN
       IF u < t + w - (n - 1) \/ u > t + w + 3 THEN [ok |-> FALSE]
       ELSE IF Outcome(outs, n + 1) = "ok" THEN [ok |-> TRUE, k |-> "ok", n |-> n + 1, code |-> "", now |-> u]
       ELSE Retry(g, n + 1, outs, at, u, Outcome(outs, n + 1))

Result(k, n, code, t) == [k |-> k, n |-> n, code |-> code, now |-> t]
\* what follows the first attempt of operation id
Finish(id, outs, at) ==
  LET c == Outcome(outs, 1) IN
  IF c = "ok"
  THEN /\ br' = IF id \in DOMAIN br THEN [br EXCEPT ![id] = Good(@)] ELSE br
       /\ res' = Result("ok", 1, "", now) /\ now' = now
  ELSE LET g == Strategy(c) IN
    CASE g.t = "fast" -> res' = Result("err", 1, c, now) /\ UNCHANGED <<now, br>>
      [] g.t = "fb"   -> /\ res' = IF id \in DOMAIN cfg.fb
                                   THEN IF cfg.fb[id] = "ok" THEN Result("fb", 1, "", now) ELSE Result("err", 1, cfg.fb[id], now)
                                   ELSE Result("err", 1, "none", now)
                         /\ UNCHANGED <<now, br>>
      [] g.t = "cb"   -> /\ br' = (id :> Bad(IF id \in DOMAIN br THEN br[id] ELSE Breaker(g))) @@ br
                         /\ res' = Result("err", 1, c, now) /\ UNCHANGED now
      [] OTHER        -> LET r == Retry(g, 1, outs, at, now, c) IN
                         /\ r.ok
                         /\ now' = r.now
                         /\ res' = Result(r.k, r.n, r.code, r.now) /\ UNCHANGED br
Blocked == Result("open", 0, "int", now)

Exec(id, outs, at) ==
  /\ IF id \in DOMAIN br /\ ~Ask(br[id]).ok
     THEN res' = Blocked /\ UNCHANGED <<now, br>>
     ELSE IF id \in DOMAIN br
          THEN LET b == Ask(br[id]).b
                   c == Outcome(outs, 1) IN
               \* as Finish, with the breaker as asking left it
               IF c = "ok" THEN br' = [br EXCEPT ![id] = Good(b)] /\ res' = Result("ok", 1, "", now) /\ now' = now
               ELSE LET g == Strategy(c) IN
                    IF g.t = "cb" THEN br' = [br EXCEPT ![id] = Bad(b)] /\ res' = Result("err", 1, c, now) /\ now' = now
                    ELSE IF g.t \in {"fixed", "exp"}
                         THEN LET r == Retry(g, 1, outs, at, now, c) IN
                              r.ok /\ now' = r.now /\ res' = Result(r.k, r.n, r.code, r.now) /\ br' = [br EXCEPT ![id] = b]
                         ELSE /\ br' = [br EXCEPT ![id] = b] /\ now' = now
                              /\ res' = IF g.t = "fast" THEN Result("err", 1, c, now)
                                        ELSE IF id \in DOMAIN cfg.fb
                                             THEN IF cfg.fb[id] = "ok" THEN Result("fb", 1, "", now) ELSE Result("err", 1, cfg.fb[id], now)
                                             ELSE Result("err", 1, "none", now)
          ELSE Finish(id, outs, at)
  /\ UNCHANGED <<cfg, calls>>

\* with_retry: n attempts in all
Plain(n, d, outs, at) ==
  /\ IF n = 0 THEN res' = Result("err", 0, "none", now) /\ now' = now
     ELSE IF Outcome(outs, 1) = "ok" THEN res' = Result("ok", 1, "", now) /\ now' = now
     ELSE LET r == Retry([t |-> "fixed", n |-> n - 1, d |-> d], 1, outs, at, now, Outcome(outs, 1)) IN
          r.ok /\ now' = r.now /\ res' = Result(r.k, r.n, r.code, r.now)
  /\ UNCHANGED <<cfg, br, calls>>

At(o) == IF "r" \in DOMAIN o /\ "at" \in DOMAIN o.r THEN o.r.at ELSE <<>>
Apply(o) ==
  CASE o.e = "exec"    -> Exec(o.id, o.outs, At(o))
    [] o.e = "plain"   -> Plain(o.n, o.d, o.outs, At(o))
    [] o.e = "allow"   -> /\ LET a == Ask(br["own"]) IN br' = [br EXCEPT !["own"] = a.b] /\ res' = [k |-> "ok", v |-> a.ok]
                          /\ UNCHANGED <<cfg, now, calls>>
    [] o.e = "success" -> br' = [br EXCEPT !["own"] = Good(@)] /\ res' = [k |-> "ok"] /\ UNCHANGED <<cfg, now, calls>>
    [] o.e = "failure" -> br' = [br EXCEPT !["own"] = Bad(@)] /\ res' = [k |-> "ok"] /\ UNCHANGED <<cfg, now, calls>>
    [] o.e = "advance" -> now' = now + o.d /\ res' = [k |-> "ok"] /\ UNCHANGED <<cfg, br, calls>>
\* the two steps of an execution, for concurrent ones (o.c names the call)
PreApply(o) ==
  /\ o.e = "exec"
  /\ IF o.id \in DOMAIN br
     THEN br' = [br EXCEPT ![o.id] = Ask(@).b] /\ calls' = (o.c :> Ask(br[o.id]).ok) @@ calls
     ELSE UNCHANGED br /\ calls' = (o.c :> TRUE) @@ calls
  /\ UNCHANGED <<cfg, now, res>>
PostApply(o) ==
  /\ o.e = "exec"
  /\ IF calls[o.c] THEN Finish(o.id, o.outs, At(o)) ELSE res' = Blocked /\ UNCHANGED <<now, br>>
  /\ UNCHANGED <<cfg, calls>>
ResMatches(r) ==
  IF r.k = "panic" THEN FALSE
  ELSE IF "at" \in DOMAIN r THEN r.k = res'.k /\ Len(r.at) = res'.n /\ r.code = res'.code /\ r.now = res'.now
  ELSE r = res'

(******************************* properties *******************************)
\* an open breaker lets nothing through before its time
Blocks == [][\A id \in DOMAIN br : br[id].state = "open" /\ now - br[id].last < br[id].to => br'[id].state = "open"]_vars
\* it opens as soon as, and only when, the failures reach the threshold (or a trial fails)
Sane == \A id \in DOMAIN br : LET b == br[id] IN
          /\ b.state = "closed" => b.fail = 0 \/ b.fail < b.ft
          /\ b.state = "half" => b.suc = 0 \/ b.suc < b.st
===========================================================================
