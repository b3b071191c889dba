------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Batch processing (src/shared/batch.rs, src/utils/parallel_batch.rs,      *)
(* src/server/batch.rs).                                                    *)
(*                                                                          *)
(* A batch of requests is processed by at most cfg.max concurrent handlers. *)
(* The environment decides when a running handler ends (finish) and when    *)
(* time passes (tick; a handler that has run for cfg.timeout ticks is given *)
(* up).  Which waiting requests start next is the implementation's choice.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [max, timeout (0: none), wrap: a single answer is not wrapped in a list]
  reqs,     \* the batch being processed: <<[id, bad]>>
  st,       \* its requests: "wait", "run", "done"
  at,       \* when each started
  out,      \* the answer to each
  now, busy,
  tot,      \* [n, ok, err, late]: answers so far
  res
vars == <<cfg, reqs, st, at, out, now, busy, tot, res>>

InitWith(c) ==
  /\ cfg = [max |-> c.max, timeout |-> c.timeout, wrap |-> c.wrap]
  /\ reqs = <<>> /\ st = <<>> /\ at = <<>> /\ out = <<>>
  /\ now = 0 /\ busy = FALSE
  /\ tot = [n |-> 0, ok |-> 0, err |-> 0, late |-> 0]
  /\ res = [k |-> "none"]

Quiet == [started |-> {}, done |-> FALSE, shape |-> "none", resp |-> <<>>]
Shape(n) == IF cfg.wrap /\ n = 1 THEN "single" ELSE "list"
Ks == DOMAIN reqs
Running(s) == {k \in DOMAIN s : s[k] = "run"}
Waiting(s) == {k \in DOMAIN s : s[k] = "wait"}
Count(o, what) == Cardinality({k \in DOMAIN o : o[k][2] = what})

\* s, o: states and answers after what the environment did at time t
Continue(o, rq, s, ans, atimes, t) ==
  LET choices == IF "r" \in DOMAIN o THEN {{o.r.started[n] : n \in DOMAIN o.r.started}} ELSE SUBSET Waiting(s)
  IN \E S \in choices :
     /\ S \subseteq Waiting(s)
     /\ Cardinality(Running(s)) + Cardinality(S) <= cfg.max
     /\ Running(s) = {} /\ Waiting(s) # {} => S # {}
     /\ LET s2 == [k \in DOMAIN s |-> IF k \in S THEN "run" ELSE s[k]]
            end == \A k \in DOMAIN s2 : s2[k] = "done"
        IN /\ reqs' = IF end THEN <<>> ELSE rq
           /\ st' = IF end THEN <<>> ELSE s2
           /\ out' = IF end THEN <<>> ELSE ans
           /\ at' = IF end THEN <<>> ELSE [k \in DOMAIN s2 |-> IF k \in S THEN t ELSE atimes[k]]
           /\ busy' = ~end
           /\ tot' = IF end THEN [n |-> tot.n + Len(rq), ok |-> tot.ok + Count(ans, "res"),
                                  err |-> tot.err + Count(ans, "err"), late |-> tot.late + Count(ans, "late")] ELSE tot
           /\ res' = [started |-> S, done |-> end, shape |-> IF end THEN Shape(Len(rq)) ELSE "none",
                      resp |-> IF end THEN [k \in DOMAIN rq |-> <<rq[k].id, ans[k][2], ans[k][3]>>] ELSE <<>>]

\* a request that cannot be parsed needs no handler
Begin(o) ==
  /\ ~busy
  /\ Continue(o, o.reqs, [k \in DOMAIN o.reqs |-> IF o.reqs[k].bad THEN "done" ELSE "wait"],
              [k \in DOMAIN o.reqs |-> IF o.reqs[k].bad THEN <<k, "err", "-32700">> ELSE <<k, "none", "">>],
              [k \in DOMAIN o.reqs |-> 0], now)
  /\ UNCHANGED <<cfg, now>>

Finish(o) ==
  /\ IF o.n \notin Running(st) THEN res' = Quiet /\ UNCHANGED <<reqs, st, at, out, busy, tot>>
     ELSE Continue(o, reqs, [st EXCEPT ![o.n] = "done"], [out EXCEPT ![o.n] = <<o.n, o.o, o.body>>], at, now)
  /\ UNCHANGED <<cfg, now>>

Tick(o) ==
  LET late == {k \in Running(st) : cfg.timeout > 0 /\ at[k] + cfg.timeout <= now + 1} IN
  /\ IF late = {} THEN res' = Quiet /\ UNCHANGED <<reqs, st, at, out, busy, tot>>
     ELSE Continue(o, reqs, [k \in Ks |-> IF k \in late THEN "done" ELSE st[k]],
                   [k \in Ks |-> IF k \in late THEN <<k, "late", "">> ELSE out[k]], at, now + 1)
  /\ now' = now + 1
  /\ UNCHANGED cfg

Metrics == /\ res' = [tot |-> tot]
           /\ UNCHANGED <<cfg, reqs, st, at, out, now, busy, tot>>

Apply(o) ==
  CASE o.e = "begin"  -> Begin(o)
    [] o.e = "finish" -> Finish(o)
    [] o.e = "tick"   -> Tick(o)
    [] o.e = "metrics" -> Metrics
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE

ResMatches(r) ==
  IF "tot" \in DOMAIN res' THEN r = res'
  ELSE /\ {r.started[n] : n \in DOMAIN r.started} = res'.started
       /\ Len(r.started) = Cardinality(res'.started)
       \* a handler that was given up does not keep running
       /\ {r.live[n] : n \in DOMAIN r.live} = Running(st')
       /\ r.done = res'.done /\ r.resp = res'.resp /\ r.shape = res'.shape

(************************ properties of the design ************************)
Limit == Cardinality(Running(st)) <= cfg.max
NoStall == busy => Running(st) # {}
StartedOnce == [][\A k \in Ks : busy /\ busy' /\ k \in DOMAIN st' /\ st[k] # "wait" => st'[k] # "wait" /\ (st[k] = "done" => out'[k] = out[k])]_vars
Complete == ("done" \in DOMAIN res /\ res.done) => \A k \in DOMAIN res.resp : res.resp[k][2] # "none"
=============================================================================
