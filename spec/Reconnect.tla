----------------------------- MODULE Reconnect -----------------------------
(***************************************************************************)
(* Reconnection policy (src/shared/reconnect.rs): retry limit, backoff,    *)
(* circuit breaker.  Every notification takes effect atomically.  Times in *)
(* milliseconds.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,   \* [init, max, num, den, jit (percent), retries (-1: no limit), reset, minup, brk (-1: none), brkto]
  s,     \* the manager: see InitWith
  cbs,   \* callbacks made since the last look (when they are observed)
  res
vars == <<cfg, s, cbs, res>>

InitWith(c) ==
  /\ cfg = c
  /\ s = [st |-> "disconnected", ret |-> 0, fail |-> 0, att |-> 0, suc |-> 0,
          up |-> 0,        \* when the connection was last established
          open |-> 0,      \* when the circuit opened (meaningful while it is open)
          en |-> TRUE, now |-> 0]
  /\ cbs = <<>> /\ res = [k |-> "none"]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* What a notification does to the manager: [s, ans, cb]: new state, answer, callbacks. *)
Eff(x, a, c) == [s |-> x, ans |-> a, cb |-> c]

WithinLimit(x) == cfg.retries < 0 \/ x.ret < cfg.retries
\* may a connection attempt be made now?  Asking closes a circuit whose time has passed.
Should(x) ==
  IF ~x.en \/ x.st \in {"connected", "connecting"} THEN Eff(x, FALSE, <<>>)
  ELSE IF x.st = "open"
       THEN IF x.now - x.open >= cfg.brkto
            THEN Eff([x EXCEPT !.st = "disconnected"], WithinLimit(x), <<"close">>)
            ELSE Eff(x, FALSE, <<>>)
       ELSE Eff(x, WithinLimit(x), <<>>)

Connecting(x) == Eff([x EXCEPT !.st = "connecting", !.att = @ + 1], TRUE, <<"connecting" \o ToString(x.ret)>>)
Connected(x) ==
  Eff([x EXCEPT !.st = "connected", !.suc = @ + 1, !.fail = 0, !.up = x.now,
                !.ret = IF cfg.reset THEN 0 ELSE @], TRUE, <<"connected">>)
Failed(x) ==
  LET y == [x EXCEPT !.ret = @ + 1, !.fail = @ + 1] IN
  IF cfg.brk >= 0 /\ y.fail >= cfg.brk
  THEN Eff([y EXCEPT !.st = "open", !.open = x.now], TRUE, <<"failed", "open">>)
  ELSE Eff([y EXCEPT !.st = "waiting"], TRUE, <<"failed">>)
\* losing a connection does not close an open circuit
Lost(x) ==
  LET y == IF x.st = "connected" /\ x.now - x.up >= cfg.minup THEN [x EXCEPT !.ret = 0] ELSE x IN
  Eff(IF x.st = "open" THEN y ELSE [y EXCEPT !.st = "disconnected"], TRUE, <<>>)
Reset(x) == Eff([x EXCEPT !.ret = 0, !.fail = 0], TRUE, <<>>)

(* Waiting times, in microseconds: initial * (num/den)^retries, at most max, give or take the jitter, *)
(* and never more than max. *)
RECURSIVE Base(_)
Base(n) == IF n = 0 THEN Min(cfg.init, cfg.max) * 1000
           ELSE LET b == Base(n - 1) IN IF b >= cfg.max * 1000 THEN b ELSE Min(cfg.max * 1000, (b \div cfg.den) * cfg.num)
Jit(n) == (Base(n) \div 100) * cfg.jit
DelayOk(n, us, slack) == us >= Base(n) - Jit(n) - 500 /\ us <= Min(cfg.max * 1000, Base(n) + Jit(n) + 500) + slack

(* Reconnecting: attempts, whose outcomes are given (success after the last), with waits between them. *)
(* at: the times of the attempts after the first, as the implementation chose them. *)
RECURSIVE Run(_, _, _, _, _)
Run(x, n, outs, at, log) ==
  LET q == Should(x) IN
  IF ~q.ans THEN [ok |-> TRUE, s |-> q.s, k |-> "refused", n |-> n - 1, cb |-> log \o q.cb]
  ELSE
    LET c == Connecting(q.s)
        l == log \o q.cb \o c.cb IN
    IF n > Len(outs) \/ outs[Min(n, Len(outs))]
    THEN [ok |-> TRUE, s |-> Connected(c.s).s, k |-> "ok", n |-> n, cb |-> l \o Connected(c.s).cb]
    ELSE
      LET f == Failed(c.s)
          a == Should(f.s)
          m == l \o f.cb \o a.cb IN
      IF ~a.ans THEN [ok |-> TRUE, s |-> a.s, k |-> "err" \o ToString(n), n |-> n, cb |-> m]
      ELSE LET t == IF n + 1 <= Len(at) THEN at[n + 1] ELSE a.s.now + (Base(a.s.ret) \div 1000) IN
           IF ~DelayOk(a.s.ret, (t - a.s.now) * 1000, 2500) THEN [ok |-> FALSE]
           ELSE Run([a.s EXCEPT !.now = t], n + 1, outs, at, m)

Does(e) == s' = e.s /\ res' = [k |-> "ok", v |-> e.ans] /\ cbs' = (IF cfg.watch THEN cbs \o e.cb ELSE <<>>) /\ UNCHANGED cfg

Apply(o) ==
  CASE o.e = "should"     -> Does(Should(s))
    [] o.e = "connecting" -> Does(Connecting(s))
    [] o.e = "connected"  -> Does(Connected(s))
    [] o.e = "failed"     -> Does(Failed(s))
    [] o.e \in {"lost", "dropped"} -> Does(Lost(s))
    [] o.e = "reset"      -> Does(Reset(s))
    [] o.e = "enable"     -> Does(Eff([s EXCEPT !.en = o.v], TRUE, <<>>))
    [] o.e = "advance"    -> Does(Eff([s EXCEPT !.now = @ + o.d], TRUE, <<>>))
    [] o.e = "delay"      -> LET us == IF "r" \in DOMAIN o THEN o.r.us ELSE Base(s.ret) IN
                             /\ DelayOk(s.ret, us, 1)
                             /\ res' = [k |-> "ok", us |-> us] /\ UNCHANGED <<cfg, s, cbs>>
    [] o.e = "run"        -> LET r == Run(s, 1, o.outs, IF "r" \in DOMAIN o THEN o.r.at ELSE <<>>, <<>>) IN
                             /\ r.ok
                             /\ s' = r.s /\ cbs' = (IF cfg.watch THEN cbs \o r.cb ELSE <<>>) /\ UNCHANGED cfg
                             /\ res' = [k |-> r.k, n |-> r.n, now |-> r.s.now]
    [] o.e = "look"       -> /\ res' = [k |-> "ok", st |-> s.st, ret |-> s.ret, fail |-> s.fail, att |-> s.att, suc |-> s.suc, cbs |-> cbs]
                             /\ cbs' = <<>> /\ UNCHANGED <<cfg, s>>
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) ==
  IF r.k = "panic" THEN FALSE
  ELSE IF "at" \in DOMAIN r THEN r.k = res'.k /\ Len(r.at) = res'.n /\ r.now = res'.now
  ELSE r = res'

(******************************* properties *******************************)
\* an attempt is only answered for when the policy allows it
Allowed == [][\A x \in {Should(s)} : x.ans =>
                /\ s.en /\ (cfg.retries >= 0 => s.ret < cfg.retries)
                /\ (s.st = "open" => s.now >= s.open + cfg.brkto)]_vars
\* the circuit, once open, stays so until its time has passed or somebody connects regardless
OpenStays == [][(s.st = "open" /\ s'.st \notin {"open", "connecting", "connected", "waiting"}) => s.now - s.open >= cfg.brkto]_vars
OpensInTime == (cfg.brk >= 0 /\ s.fail >= Max(cfg.brk, 1)) => s.st # "waiting"
FreshAfterSuccess == s.st = "connected" => s.fail = 0 /\ (cfg.reset => s.ret = 0)
===========================================================================
