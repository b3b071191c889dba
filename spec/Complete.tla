------------------------------ MODULE Complete ------------------------------
(***************************************************************************)
(* Argument completion (src/types/completable.rs): a fixed list of         *)
(* suggestions, and the entries of a directory tree.                       *)
(* "@" stands for the absolute path of the tree's root, TAB for a          *)
(* character outside ASCII.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  items,  \* the fixed list: [v: value, l: label (<<>> or <<label>>)]
  tree,   \* entries: [at: directory (sequence of names), n: name, dir]
  conf,   \* file completion: base (<<>> or <<directory>>), exts (<<>> or <<list>>)
  res
vars == <<items, tree, conf, res>>
InitWith(c) == items = <<>> /\ tree = {} /\ conf = [base |-> <<>>, exts |-> <<>>] /\ res = [k |-> "none"]

Starts(s, q) == Len(q) <= Len(s) /\ SubSeq(s, 1, Len(q)) = q
Order == "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz\t"
At(c) == CHOOSE x \in 1..Len(Order) : SubSeq(Order, x, x) = c
RECURSIVE Before(_, _)
Before(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                ELSE LET u == At(SubSeq(a, 1, 1)) w == At(SubSeq(b, 1, 1))
                     IN u < w \/ (u = w /\ Before(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ Before(x.n, y.n) IN <<x>> \o Sorted(S \ {x})

(******************************* fixed lists *******************************)
Items(o) == items' = o.items /\ res' = [k |-> "ok"] /\ UNCHANGED <<tree, conf>>
Pick(o) ==
  /\ res' = [k |-> "list", list |-> SelectSeq(items, LAMBDA y : Starts(y.v, o.text) \/ (y.l # <<>> /\ Starts(y.l[1], o.text)))]
  /\ UNCHANGED <<items, tree, conf>>

(******************************** the tree *********************************)
IsDir(at) == IF at = <<>> THEN TRUE ELSE \E y \in tree : y.at = SubSeq(at, 1, Len(at) - 1) /\ y.n = at[Len(at)] /\ y.dir
Within(at, y) == y.at = at \/ (Len(y.at) > Len(at) /\ SubSeq(y.at, 1, Len(at)) = at)
Put(o) == /\ IsDir(o.at) /\ ~\E y \in tree : y.at = o.at /\ y.n = o.n
          /\ tree' = tree \cup {[at |-> o.at, n |-> o.n, dir |-> o.dir]} /\ res' = [k |-> "ok"] /\ UNCHANGED <<items, conf>>
Drop(o) == /\ \E y \in tree : y.at = o.at /\ y.n = o.n
           /\ tree' = {y \in tree : ~(y.at = o.at /\ y.n = o.n) /\ ~Within(Append(o.at, o.n), y)} /\ res' = [k |-> "ok"] /\ UNCHANGED <<items, conf>>
SetUp(o) == /\ conf' = [base |-> o.base, exts |-> o.exts] /\ res' = [k |-> "ok"] /\ UNCHANGED <<items, tree>>
\* the directory a path leads to; ways out of the tree are not covered
Out == <<"/out">>
Nowhere == <<"/none">>
RECURSIVE Walk(_, _, _)
Walk(at, s, name) ==
  LET go == IF at = Out \/ at = Nowhere THEN at
            ELSE IF name = "" \/ name = "." THEN at
            ELSE IF name = ".." THEN (IF at = <<>> THEN Out ELSE SubSeq(at, 1, Len(at) - 1))
            ELSE IF IsDir(Append(at, name)) THEN Append(at, name) ELSE Nowhere
  IN IF s = "" THEN go ELSE IF SubSeq(s, 1, 1) = "/" THEN Walk(go, SubSeq(s, 2, Len(s)), "") ELSE Walk(at, SubSeq(s, 2, Len(s)), name \o SubSeq(s, 1, 1))
Last(s, c) == LET S == {x \in 1..Len(s) : SubSeq(s, x, x) = c} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Ext(n) == LET x == Last(n, ".") IN IF x <= 1 THEN "" ELSE SubSeq(n, x + 1, Len(n))
Fits(y) == y.dir \/ conf.exts = <<>> \/ \E x \in DOMAIN conf.exts[1] : conf.exts[1][x] = Ext(y.n)
List(text) ==
  LET cut == Last(text, "/")
      way == SubSeq(text, 1, cut)
      pre == SubSeq(text, cut + 1, Len(text))
      at == IF Starts(way, "@/") THEN Walk(<<>>, SubSeq(way, 3, Len(way)), "")
            ELSE Walk(IF conf.base = <<>> THEN <<>> ELSE conf.base[1], way, "")
      q == Sorted({y \in tree : y.at = at /\ Starts(y.n, pre) /\ Fits(y)})
  IN [out |-> at = Out, list |-> [x \in DOMAIN q |-> [v |-> way \o q[x].n, l |-> <<q[x].n>>, dir |-> q[x].dir]]]
Find(o) == ~List(o.text).out /\ res' = [k |-> "list", list |-> List(o.text).list] /\ UNCHANGED <<items, tree, conf>>

Apply(o) == CASE o.e = "items" -> Items(o) [] o.e = "pick" -> Pick(o) [] o.e = "put" -> Put(o) [] o.e = "drop" -> Drop(o)
              [] o.e = "setup" -> SetUp(o) [] o.e = "find" -> Find(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
ResMatches(r) == r.k = res'.k /\ (r.k = "list" => r.list = res'.list)

(******************************** properties *******************************)
Listed == IF res.k = "list" THEN res.list ELSE <<>>
NoneTwice == \A x, y \in DOMAIN Listed : x # y /\ "dir" \in DOMAIN Listed[x] => Listed[x].v # Listed[y].v
OnlyThere == \A x \in DOMAIN Listed : "dir" \in DOMAIN Listed[x] => \E y \in tree : y.n = Listed[x].l[1] /\ y.dir = Listed[x].dir /\ Fits(y)
=============================================================================
