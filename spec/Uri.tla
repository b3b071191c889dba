-------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* URI templates (src/shared/uri_template.rs): RFC 6570 with string values.*)
(* The characters TAB, LF and CR stand for three characters outside ASCII  *)
(* of two, three and four bytes.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  tmpl,   \* the template: its parts
  res
vars == <<tmpl, res>>

Chars(s) == [x \in 1..Len(s) |-> SubSeq(s, x, x)]
Set(s) == {SubSeq(s, x, x) : x \in 1..Len(s)}
Alpha == Set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digit == Set("0123456789")
Hex == Set("0123456789ABCDEFabcdef")
Plain == Alpha \cup Digit
Unreserved == Plain \cup Set("-._~")
Reserved == Set(":/?#[]@!$&'()*+,;=")
Code(c) ==
  CASE c = "\t" -> "%C3%A9" [] c = "\n" -> "%E2%86%92" [] c = "\r" -> "%F0%9F%98%80"
    [] c = " " -> "%20" [] c = "!" -> "%21" [] c = "\"" -> "%22" [] c = "#" -> "%23" [] c = "$" -> "%24" [] c = "%" -> "%25" [] c = "&" -> "%26"
    [] c = "'" -> "%27" [] c = "(" -> "%28" [] c = ")" -> "%29" [] c = "*" -> "%2A" [] c = "+" -> "%2B" [] c = "," -> "%2C" [] c = "/" -> "%2F"
    [] c = ":" -> "%3A" [] c = ";" -> "%3B" [] c = "<" -> "%3C" [] c = "=" -> "%3D" [] c = ">" -> "%3E" [] c = "?" -> "%3F" [] c = "@" -> "%40"
    [] c = "[" -> "%5B" [] c = "\\" -> "%5C" [] c = "]" -> "%5D" [] c = "^" -> "%5E" [] c = "`" -> "%60" [] c = "{" -> "%7B" [] c = "|" -> "%7C"
    [] c = "}" -> "%7D" [] c = "-" -> "%2D" [] c = "." -> "%2E" [] c = "_" -> "%5F" [] c = "~" -> "%7E"
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Triplet(q, x) == q[x] = "%" /\ x + 2 <= Len(q) /\ q[x + 1] \in Hex /\ q[x + 2] \in Hex
RECURSIVE Enc(_, _, _)
Enc(q, x, keep) ==
  IF x > Len(q) THEN ""
  ELSE IF keep /\ Triplet(q, x) THEN q[x] \o q[x + 1] \o q[x + 2] \o Enc(q, x + 3, keep)
  ELSE (IF q[x] \in Unreserved \/ (keep /\ q[x] \in Reserved) THEN q[x] ELSE Code(q[x])) \o Enc(q, x + 1, keep)
Encode(s, keep) == Enc(Chars(s), 1, keep)
Up(c) == CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] OTHER -> c
\* the form two spellings of a URI share
RECURSIVE Nrm(_, _)
Nrm(q, x) ==
  IF x > Len(q) THEN ""
  ELSE IF Triplet(q, x) THEN q[x] \o Up(q[x + 1]) \o Up(q[x + 2]) \o Nrm(q, x + 3)
  ELSE (IF q[x] \in Plain THEN q[x] ELSE Code(q[x])) \o Nrm(q, x + 1)
Norm(s) == Nrm(Chars(s), 1)

(******************************* the grammar ******************************)
Ops_ == Set("+#./;?&")
Op(f, s, n, k, e) == [first |-> f, sep |-> s, named |-> n, keep |-> k, eq |-> e]
OpOf(c) ==
  CASE c = "" -> Op("", ",", FALSE, FALSE, "") [] c = "+" -> Op("", ",", FALSE, TRUE, "") [] c = "#" -> Op("#", ",", FALSE, TRUE, "")
    [] c = "." -> Op(".", ".", FALSE, FALSE, "") [] c = "/" -> Op("/", "/", FALSE, FALSE, "") [] c = ";" -> Op(";", ";", TRUE, FALSE, "")
    [] c = "?" -> Op("?", "&", TRUE, FALSE, "=") [] c = "&" -> Op("&", "&", TRUE, FALSE, "=")
Bad == [bad |-> TRUE]
RECURSIVE Split(_, _, _), Trim(_), Number(_)
Split(q, c, cur) == IF q = <<>> THEN <<cur>> ELSE IF Head(q) = c THEN <<cur>> \o Split(Tail(q), c, <<>>) ELSE Split(Tail(q), c, Append(cur, Head(q)))
Trim(q) == IF q = <<>> THEN q ELSE IF Head(q) = " " THEN Trim(Tail(q)) ELSE IF q[Len(q)] = " " THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q
DigitOf(c) == (CHOOSE x \in 1..10 : SubSeq("0123456789", x, x) = c) - 1
Number(q) == IF q = <<>> THEN 0 ELSE 10 * Number(SubSeq(q, 1, Len(q) - 1)) + DigitOf(q[Len(q)])
NameOk(q) == q # <<>> /\ q[1] \in Alpha \cup {"_"} /\ \A x \in 1..Len(q) : q[x] \in Plain \cup {"_"}
Spec_(q0) ==
  LET q == Trim(q0)
      colon == {x \in 1..Len(q) : q[x] = ":"}
      at == CHOOSE x \in colon : \A y \in colon : x <= y
      name == IF q # <<>> /\ q[Len(q)] = "*" THEN SubSeq(q, 1, Len(q) - 1) ELSE IF colon # {} THEN SubSeq(q, 1, at - 1) ELSE q
      num == SubSeq(q, at + 1, Len(q))
      cut == q # <<>> /\ q[Len(q)] # "*" /\ colon # {}
  IN IF ~NameOk(name) THEN Bad
     ELSE IF ~cut THEN [name |-> Cat(name), cut |-> 0]
     ELSE IF num = <<>> \/ Len(num) > 4 \/ num[1] \notin Digit \ {"0"} \/ (\E x \in 1..Len(num) : num[x] \notin Digit) THEN Bad
     ELSE [name |-> Cat(name), cut |-> Number(num)]
Expr(q) ==
  LET c == IF q # <<>> /\ q[1] \in Ops_ THEN q[1] ELSE ""
      ss == LET w == Split(IF c = "" THEN q ELSE Tail(q), ",", <<>>) IN [x \in 1..Len(w) |-> Spec_(w[x])]
  IN IF \E x \in DOMAIN ss : ss[x] = Bad THEN Bad ELSE [op |-> c, specs |-> ss]
\* the parts of a template, or Bad at its end
RECURSIVE Parts(_, _)
Parts(q, lit) ==
  LET flush == IF lit = <<>> THEN <<>> ELSE <<[lit |-> Cat(lit)]>> IN
  IF q = <<>> THEN flush
  ELSE IF Head(q) = "}" THEN <<Bad>>
  ELSE IF Head(q) # "{" THEN Parts(Tail(q), Append(lit, Head(q)))
  ELSE LET ends == {x \in 2..Len(q) : q[x] = "}"} IN
       IF ends = {} THEN <<Bad>>
       ELSE LET at == CHOOSE x \in ends : \A y \in ends : x <= y
                e == Expr(SubSeq(q, 2, at - 1))
            IN flush \o <<e>> \o Parts(SubSeq(q, at + 1, Len(q)), <<>>)
Refused(ps) == \E x \in DOMAIN ps : ps[x] = Bad
RECURSIVE Names(_)
Names(ps) == IF ps = <<>> THEN <<>>
             ELSE (IF "lit" \in DOMAIN ps[1] THEN <<>> ELSE [x \in DOMAIN ps[1].specs |-> ps[1].specs[x].name]) \o Names(Tail(ps))

(******************************** expansion *******************************)
\* v: a list of [n, x]; the last value of a name counts
Has(v, n) == \E x \in DOMAIN v : v[x].n = n
Val(v, n) == v[CHOOSE x \in DOMAIN v : v[x].n = n /\ \A y \in DOMAIN v : v[y].n = n => y <= x].x
Item(o, s, v) ==
  LET w == Val(v, s.name)
      e == Encode(IF s.cut > 0 /\ s.cut < Len(w) THEN SubSeq(w, 1, s.cut) ELSE w, o.keep)
  IN IF ~o.named THEN e ELSE IF w = "" THEN s.name \o o.eq ELSE s.name \o "=" \o e
RECURSIVE Items(_, _, _, _)
Items(o, ss, v, before) ==
  IF ss = <<>> THEN ""
  ELSE IF ~Has(v, ss[1].name) THEN Items(o, Tail(ss), v, before)
  ELSE (IF before THEN o.sep ELSE o.first) \o Item(o, ss[1], v) \o Items(o, Tail(ss), v, TRUE)
RECURSIVE Expand(_, _)
Expand(ps, v) ==
  IF ps = <<>> THEN ""
  ELSE (IF "lit" \in DOMAIN ps[1] THEN ps[1].lit ELSE Items(OpOf(ps[1].op), ps[1].specs, v, FALSE)) \o Expand(Tail(ps), v)

(******************************** matching ********************************)
Cuts(ps) == \E x \in DOMAIN ps : "specs" \in DOMAIN ps[x] /\ \E y \in DOMAIN ps[x].specs : ps[x].specs[y].cut > 0
\* where one part ends and the next begins can be told
Begins(p_) == IF "lit" \in DOMAIN p_ THEN SubSeq(p_.lit, 1, 1) ELSE OpOf(p_.op).first
Apart(ps) == \A x \in DOMAIN ps : "specs" \in DOMAIN ps[x] /\ x < Len(ps) => Begins(ps[x + 1]) \notin Plain \cup {"", "%"}
\* values that hold nothing their place would take for an end
Clear(ps, v) ==
  \A x \in DOMAIN ps : "specs" \in DOMAIN ps[x] =>
    \A y \in DOMAIN ps[x].specs :
      LET s == ps[x].specs[y] IN
      /\ Has(v, s.name) /\ Val(v, s.name) # ""
      /\ \/ \A c \in Set(Val(v, s.name)) : IF OpOf(ps[x].op).keep THEN c \in Plain ELSE c \notin Unreserved \ Plain
         \* the rest of the URI
         \/ x = Len(ps) /\ Len(ps[x].specs) = 1 /\ OpOf(ps[x].op).keep /\ \A c \in Set(Val(v, s.name)) : c \in Unreserved \cup Reserved
Distinct(q) == \A x, y \in DOMAIN q : x # y => q[x] # q[y]
Certain(ps, v) == ~Cuts(ps) /\ Apart(ps) /\ Clear(ps, v) /\ Distinct(Names(ps))
Sound(ps, u, m_) ==
  /\ \A x \in DOMAIN m_ : \E y \in DOMAIN Names(ps) : Names(ps)[y] = m_[x].n
  /\ ~Cuts(ps) => Norm(Expand(ps, m_)) = Norm(u)
Same(v, m_, ps) == \A x \in DOMAIN Names(ps) : LET n == Names(ps)[x] IN Has(m_, n) /\ Val(m_, n) = Val(v, n)

InitWith(c) == tmpl = <<>> /\ res = [k |-> "none"]
New(o) ==
  LET ps == Parts(Chars(o.t), <<>>) IN
  IF Refused(ps) THEN res' = [k |-> "err", names |-> <<>>] /\ UNCHANGED tmpl
  ELSE tmpl' = ps /\ res' = [k |-> "ok", names |-> Names(ps)]
\* what matching u gives: any values that expand to u, and v if they are certain
Matched(seen, u, sure, v) ==
  IF seen.k = "none" THEN ~sure
  ELSE seen.k = "some" /\ Sound(tmpl, u, seen.v) /\ (sure => Same(v, seen.v, tmpl))
NoMatch == [k |-> "none", v |-> <<>>]
\* an expansion, and the match of it
Exp(o) ==
  LET u == Expand(tmpl, o.v)
      sure == Certain(tmpl, o.v)
      seen == IF "r" \in DOMAIN o THEN o.r.m ELSE IF sure THEN [k |-> "some", v |-> o.v] ELSE NoMatch
  IN Matched(seen, u, sure, o.v) /\ res' = [k |-> "uri", u |-> u, m |-> seen] /\ UNCHANGED tmpl
Match(o) ==
  LET seen == IF "r" \in DOMAIN o THEN o.r.m ELSE NoMatch
  IN Matched(seen, o.u, FALSE, <<>>) /\ res' = [k |-> "match", m |-> seen] /\ UNCHANGED tmpl
Apply(o) == CASE o.e = "new" -> New(o) [] o.e = "expand" -> Exp(o) [] o.e = "match" -> Match(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
ResMatches(r) == r = res'
(******************************* properties *******************************)
\* certain values are those of the expansion: no other values of the same names give it (checked on what is at hand)
RoundTrip == (res.k = "uri" /\ res.m.k = "some") => Sound(tmpl, res.u, res.m.v)
\* an expansion is a URI
Escaped == res.k = "uri" => \A c \in Set(res.u) : c \in Unreserved \cup Reserved \cup {"%"}
=============================================================================
