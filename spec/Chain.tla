------------------------------ MODULE Chain ------------------------------
(***************************************************************************)
(* Middleware chains (src/shared/middleware.rs).                           *)
(* A middleware handles each kind of message by noting that it saw it and, *)
(* for requests and responses, leaving its mark on it; it may then fail.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES chain, res   \* chain: sequence of [id, acts: kind -> what it does]
vars == <<chain, res>>
Kinds == {"request", "response", "send", "receive"}
Mutable == {"request", "response"}
InitWith(c) == chain = <<>> /\ res = [k |-> "none"]

\* acts: "pass" (looks on), "mark", "fail" (without a mark), "markfail"
Marks(a) == a \in {"mark", "markfail"}
Fails(a) == a \in {"fail", "markfail"}

\* message m of kind q through the chain from position n: [k, by, msg, seen]
RECURSIVE Through(_, _, _, _)
Through(q, n, m, seen) ==
  IF n > Len(chain) THEN [k |-> "ok", by |-> "", msg |-> m, seen |-> seen]
  ELSE LET w == chain[n]
           a == w.acts[q]
           m2 == IF Marks(a) /\ q \in Mutable THEN Append(m, w.id) ELSE m
           s2 == IF w.id = "builtin" THEN seen ELSE Append(seen, [by |-> w.id, saw |-> m]) IN
       IF Fails(a) THEN [k |-> "err", by |-> w.id, msg |-> m2, seen |-> s2]
       ELSE Through(q, n + 1, m2, s2)

Add(w) == chain' = Append(chain, w) /\ res' = [k |-> "ok"]
Process(q, m) == res' = Through(q, 1, m, <<>>) /\ UNCHANGED chain
Apply(o) ==
  CASE o.e = "add" -> Add([id |-> o.id, acts |-> o.acts])
    [] o.e = "process" -> Process(o.q, o.msg)
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(******************************* properties *******************************)
FailAt(q) == {n \in 1..Len(chain) : Fails(chain[n].acts[q])}
\* all see it, in order, unless one fails: then exactly those up to it
Shown(q) == LET w == [n \in 1..Len(chain) |-> chain[n].id] IN
            IF FailAt(q) = {} THEN w ELSE SubSeq(w, 1, CHOOSE n \in FailAt(q) : \A m \in FailAt(q) : n <= m)
InOrder == \A q \in Kinds : LET r == Through(q, 1, <<"m">>, <<>>) IN
             /\ [n \in 1..Len(r.seen) |-> r.seen[n].by] = SelectSeq(Shown(q), LAMBDA i : i # "builtin")
             /\ (r.k = "err") = (FailAt(q) # {})
===========================================================================
