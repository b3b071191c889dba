------------------------------ MODULE FastJson ------------------------------
(***************************************************************************)
(* The accelerated utilities (src/simd/mod.rs, src/utils/json_simd.rs):    *)
(* what they compute, whatever the length and position of what matters.    *)
(* Bytes are sequences of numbers.  A JSON value is <<"s", code points>>,  *)
(* <<"n", text>>, <<"a", values>>, <<"o", <<key, value>> pairs>>, <<"t">>, *)
(* <<"f">> or <<"z">> (null).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, res
vars == <<cfg, res>>
InitWith(c) == cfg = [k |-> c.k] /\ res = [k |-> "none"]
Rep(x, n_) == [y \in 1..n_ |-> x]
\* the input: what matters between fillers
Input(o) == Rep(o.fill, o.pre) \o o.b \o Rep(o.fill, o.post)
Sel(s, Test(_)) == LET D == {x \in DOMAIN s : Test(s[x])} IN
  [y \in 1..Cardinality(D) |-> (CHOOSE x \in D : Cardinality({z \in D : z < x}) = y - 1) - 1]

(********************************** UTF-8 **********************************)
Cont(s, x) == x <= Len(s) /\ s[x] \in 128..191
\* length of the well-formed sequence that begins at x (0: none does)
SeqLen(s, x) ==
  LET c == s[x] IN
  CASE c < 128 -> 1
    [] c \in 194..223 -> IF Cont(s, x + 1) THEN 2 ELSE 0
    [] c \in 224..239 -> IF /\ Cont(s, x + 1) /\ Cont(s, x + 2) /\ (c = 224 => s[x + 1] >= 160) /\ (c = 237 => s[x + 1] < 160) THEN 3 ELSE 0
    [] c \in 240..244 -> IF /\ Cont(s, x + 1) /\ Cont(s, x + 2) /\ Cont(s, x + 3) /\ (c = 240 => s[x + 1] >= 144) /\ (c = 244 => s[x + 1] < 144) THEN 4 ELSE 0
    [] OTHER -> 0
RECURSIVE Utf8(_, _)
Utf8(s, x) == IF x > Len(s) THEN TRUE ELSE LET n_ == SeqLen(s, x) IN n_ > 0 /\ Utf8(s, x + n_)
Point(s, x) ==
  LET n_ == SeqLen(s, x) IN
  CASE n_ = 1 -> s[x] [] n_ = 2 -> (s[x] - 192) * 64 + s[x + 1] - 128
    [] n_ = 3 -> (s[x] - 224) * 4096 + (s[x + 1] - 128) * 64 + s[x + 2] - 128
    [] OTHER -> (s[x] - 240) * 262144 + (s[x + 1] - 128) * 4096 + (s[x + 2] - 128) * 64 + s[x + 3] - 128
RECURSIVE Points(_, _)
Points(s, x) == IF x > Len(s) THEN <<>> ELSE <<Point(s, x)>> \o Points(s, x + SeqLen(s, x))
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN <<>> ELSE Encode(q[1]) \o Bytes(Tail(q))

(*********************************** JSON **********************************)
(* Parsers return [ok, v, x]: the value and the position after it.         *)
Bad == [ok |-> FALSE, v |-> <<>>, x |-> 0]
Good(v, x) == [ok |-> TRUE, v |-> v, x |-> x]
IsWs(c) == c \in {32, 9, 10, 13}
At(s, x) == IF x <= Len(s) THEN s[x] ELSE -1
RECURSIVE Skip(_, _)
Skip(s, x) == IF IsWs(At(s, x)) THEN Skip(s, x + 1) ELSE x
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Hex4(s, x) == IF \A y \in 0..3 : Hex(At(s, x + y)) >= 0 THEN Hex(s[x]) * 4096 + Hex(s[x + 1]) * 256 + Hex(s[x + 2]) * 16 + Hex(s[x + 3]) ELSE -1
Plain == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
\* the text from x on up to the closing quote
RECURSIVE Str(_, _, _)
Str(s, x, got) ==
  LET c == At(s, x) IN
  IF c < 32 THEN Bad
  ELSE IF c = 34 THEN Good(got, x + 1)
  ELSE IF c # 92 THEN Str(s, x + 1, Append(got, c))
  ELSE LET d == At(s, x + 1) IN
    IF d \in DOMAIN Plain THEN Str(s, x + 2, Append(got, Plain[d]))
    ELSE IF d # 117 THEN Bad
    ELSE LET h == Hex4(s, x + 2) IN
      IF h < 0 \/ h \in 56320..57343 THEN Bad
      ELSE IF h \notin 55296..56319 THEN Str(s, x + 6, Append(got, h))
      ELSE LET l == IF At(s, x + 6) = 92 /\ At(s, x + 7) = 117 THEN Hex4(s, x + 8) ELSE -1 IN
        IF l \in 56320..57343 THEN Str(s, x + 12, Append(got, 65536 + (h - 55296) * 1024 + l - 56320)) ELSE Bad
Digit(c) == c \in 48..57
RECURSIVE Digits(_, _)
Digits(s, x) == IF Digit(At(s, x)) THEN Digits(s, x + 1) ELSE x
Chars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Char(c) == IF c = 45 THEN "-" ELSE IF c = 46 THEN "." ELSE Chars[c - 47]
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE Char(q[1]) \o Text(Tail(q))
\* Numbers that have another usual form are not looked at closely ("?").
Num(s, x) ==
  LET i0 == IF At(s, x) = 45 THEN x + 1 ELSE x
      i1 == IF At(s, i0) = 48 THEN i0 + 1 ELSE Digits(s, i0)
      dot == At(s, i1) = 46
      i2 == IF dot THEN Digits(s, i1 + 1) ELSE i1
      ex == At(s, i2) \in {69, 101}
      e0 == IF ex THEN (IF At(s, i2 + 1) \in {43, 45} THEN i2 + 2 ELSE i2 + 1) ELSE i2
      i3 == IF ex THEN Digits(s, e0) ELSE i2
      usual == ~ex /\ i3 - x <= 15 /\ (IF dot THEN s[i2 - 1] # 48 ELSE ~(i0 > x /\ s[i0] = 48))
  IN IF i1 = i0 \/ (dot /\ i2 = i1 + 1) \/ (ex /\ i3 = e0) THEN Bad
     ELSE Good(<<"n", IF usual THEN Text(SubSeq(s, x, i3 - 1)) ELSE "?">>, i3)
Word(s, x, w, v) == IF x + Len(w) - 1 <= Len(s) /\ SubSeq(s, x, x + Len(w) - 1) = w THEN Good(v, x + Len(w)) ELSE Bad
\* an object keeps the place of a key's first and the value of its last member
PutMember(q, key, v) == IF \E y \in DOMAIN q : q[y][1] = key THEN [y \in DOMAIN q |-> IF q[y][1] = key THEN <<key, v>> ELSE q[y]] ELSE Append(q, <<key, v>>)
RECURSIVE Value(_, _)
RECURSIVE Elems(_, _, _)
RECURSIVE Members(_, _, _)
Elems(s, x, got) ==
  LET r == Value(s, x)
      y == Skip(s, r.x)
  IN IF ~r.ok THEN Bad
     ELSE IF At(s, y) = 44 THEN Elems(s, y + 1, Append(got, r.v))
     ELSE IF At(s, y) = 93 THEN Good(<<"a", Append(got, r.v)>>, y + 1) ELSE Bad
Members(s, x, got) ==
  LET x1 == Skip(s, x)
      key == IF At(s, x1) = 34 THEN Str(s, x1 + 1, <<>>) ELSE Bad
      x2 == Skip(s, key.x)
      r == IF key.ok /\ At(s, x2) = 58 THEN Value(s, x2 + 1) ELSE Bad
      y == Skip(s, r.x)
      all == PutMember(got, key.v, r.v)
  IN IF ~key.ok \/ ~r.ok THEN Bad
     ELSE IF At(s, y) = 44 THEN Members(s, y + 1, all)
     ELSE IF At(s, y) = 125 THEN Good(<<"o", all>>, y + 1) ELSE Bad
Value(s, x0) ==
  LET x == Skip(s, x0)
      c == At(s, x)
  IN CASE c = 34 -> (LET r == Str(s, x + 1, <<>>) IN IF r.ok THEN Good(<<"s", r.v>>, r.x) ELSE Bad)
       [] c = 91 -> IF At(s, Skip(s, x + 1)) = 93 THEN Good(<<"a", <<>>>>, Skip(s, x + 1) + 1) ELSE Elems(s, x + 1, <<>>)
       [] c = 123 -> IF At(s, Skip(s, x + 1)) = 125 THEN Good(<<"o", <<>>>>, Skip(s, x + 1) + 1) ELSE Members(s, x + 1, <<>>)
       [] c = 116 -> Word(s, x, <<116, 114, 117, 101>>, <<"t">>)
       [] c = 102 -> Word(s, x, <<102, 97, 108, 115, 101>>, <<"f">>)
       [] c = 110 -> Word(s, x, <<110, 117, 108, 108>>, <<"z">>)
       [] c = 45 \/ Digit(c) -> Num(s, x)
       [] OTHER -> Bad
\* <<value>>, or <<>> if the bytes are no JSON text
Json(bs) == IF ~Utf8(bs, 1) THEN <<>>
            ELSE LET s == Points(bs, 1)
                     r == Value(s, 1)
                 IN IF r.ok /\ Skip(s, r.x) = Len(s) + 1 THEN <<r.v>> ELSE <<>>
\* equal, as far as it is looked at
RECURSIVE Same(_, _)
Same(v, w) ==
  /\ Len(v) = Len(w) /\ v[1] = w[1]
  /\ CASE v[1] = "s" -> v[2] = w[2]
       [] v[1] = "n" -> v[2] \in {"?", w[2]}
       [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A x \in DOMAIN v[2] : Same(v[2][x], w[2][x])
       [] v[1] = "o" -> Len(v[2]) = Len(w[2]) /\ \A x \in DOMAIN v[2] : v[2][x][1] = w[2][x][1] /\ Same(v[2][x][2], w[2][x][2])
       [] OTHER -> TRUE

(********************************* writing *********************************)
HexDigit(n_) == IF n_ < 10 THEN 48 + n_ ELSE 87 + n_
EscapeOf == (34 :> 34) @@ (92 :> 92) @@ (8 :> 98) @@ (12 :> 102) @@ (10 :> 110) @@ (13 :> 114) @@ (9 :> 116)
Escape(c) == IF c \in DOMAIN EscapeOf THEN <<92, EscapeOf[c]>>
             ELSE IF c < 32 THEN <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>> ELSE Encode(c)
RECURSIVE Escapes(_)
Escapes(q) == IF q = <<>> THEN <<>> ELSE Escape(q[1]) \o Escapes(Tail(q))
Quoted(q) == <<34>> \o Escapes(q) \o <<34>>
Code(ch) == IF ch = "-" THEN 45 ELSE IF ch = "." THEN 46 ELSE 47 + (CHOOSE d \in 1..10 : Chars[d] = ch)
RECURSIVE Codes(_)
Codes(tx) == IF tx = "" THEN <<>> ELSE <<Code(SubSeq(tx, 1, 1))>> \o Codes(SubSeq(tx, 2, Len(tx)))
Leaf(v) == CASE v[1] = "s" -> Quoted(v[2]) [] v[1] = "n" -> Codes(v[2]) [] v[1] = "t" -> <<116, 114, 117, 101>> [] v[1] = "f" -> <<102, 97, 108, 115, 101>> [] OTHER -> <<110, 117, 108, 108>>
RECURSIVE Joined(_, _)
Joined(qs, sep) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o sep \o Joined(Tail(qs), sep)
\* nice: each member on a line of its own, two spaces further in
RECURSIVE Written(_, _, _)
Written(v, nice, in) ==
  LET nl(n_) == IF nice THEN <<10>> \o Rep(32, 2 * n_) ELSE <<>> IN
  CASE v[1] \in {"a", "o"} ->
         LET open == IF v[1] = "a" THEN 91 ELSE 123
             parts == [x \in DOMAIN v[2] |-> IF v[1] = "a" THEN Written(v[2][x], nice, in + 1)
                                             ELSE Quoted(v[2][x][1]) \o (IF nice THEN <<58, 32>> ELSE <<58>>) \o Written(v[2][x][2], nice, in + 1)]
         IN IF v[2] = <<>> THEN <<open, open + 2>>
            ELSE <<open>> \o nl(in + 1) \o Joined(parts, <<44>> \o nl(in + 1)) \o nl(in) \o <<open + 2>>
    [] OTHER -> Leaf(v)

(********************************** others *********************************)
B64 == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
         97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122,
         48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 43, 47>>
RECURSIVE Base64(_)
Base64(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET n_ == s[1] * 65536 + (IF Len(s) > 1 THEN s[2] * 256 ELSE 0) + (IF Len(s) > 2 THEN s[3] ELSE 0)
       IN <<B64[1 + n_ \div 262144], B64[1 + ((n_ \div 4096) % 64)], IF Len(s) > 1 THEN B64[1 + ((n_ \div 64) % 64)] ELSE 61, IF Len(s) > 2 THEN B64[1 + (n_ % 64)] ELSE 61>>
          \o (IF Len(s) > 3 THEN Base64(SubSeq(s, 4, Len(s))) ELSE <<>>)
RECURSIVE Xor(_, _, _)
Xor(a, c, bit) == IF bit = 0 THEN 0 ELSE ((a \div bit + c \div bit) % 2) * bit + Xor(a % bit, c % bit, bit \div 2)
Masked(s, m_) == [x \in DOMAIN s |-> Xor(s[x], m_[1 + ((x - 1) % 4)], 128)]
\* how many of the bytes from x on are alike, at most 255
Run(s, x) == LET D == {y \in x..Len(s) : y - x < 255 /\ s[y] # s[x]}
                 e == IF D = {} THEN Len(s) + 1 ELSE CHOOSE y \in D : \A z \in D : y <= z
             IN IF e - x > 255 THEN 255 ELSE e - x
RECURSIVE Rle(_, _)
Rle(s, x) == IF x > Len(s) THEN <<>> ELSE <<Run(s, x), s[x]>> \o Rle(s, x + Run(s, x))
\* where the needle first occurs (-1: nowhere, or no needle)
Find(s, nd) == LET D == {x \in 1..(Len(s) - Len(nd) + 1) : SubSeq(s, x, x + Len(nd) - 1) = nd} IN
               IF nd = <<>> \/ D = {} THEN -1 ELSE (CHOOSE x \in D : \A y \in D : x <= y) - 1
\* numbers of 32 bits as <<high, low>>
AtMost(a, c) == a[1] < c[1] \/ (a[1] = c[1] /\ a[2] <= c[2])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

(**************************************************************************)
What(o) ==
  CASE o.e = "utf8" -> Utf8(Input(o), 1)
    [] o.e = "ws" -> Sel(Input(o), IsWs)
    [] o.e = "esc" -> Sel(Input(o), LAMBDA c : c \in {34, 92})
    [] o.e = "b64" -> Base64(Input(o))
    [] o.e = "xor" -> Masked(Input(o), o.mask)
    [] o.e = "rle" -> Rle(Input(o), 1)
    [] o.e = "find" -> Find(Input(o), o.needle)
    [] o.e = "copy" -> Input(o)
    [] o.e = "lens" -> [x \in DOMAIN o.lens |-> AtMost(o.lens[x], o.max)]
    [] o.e = "sums" -> [x \in DOMAIN o.bufs |-> Sum(o.bufs[x])]
    [] o.e = "parse" -> Json(Input(o))
    [] o.e = "batch" -> [x \in DOMAIN o.bs |-> Json(o.bs[x])]
    [] o.e = "write" -> Written(o.v, FALSE, 0)
    [] o.e = "pretty" -> Written(o.v, TRUE, 0)
Apply(o) == res' = [k |-> "ok", v |-> What(o), e |-> o.e, op |-> o] /\ UNCHANGED cfg
SameOpt(a, c) == Len(a) = Len(c) /\ (Len(a) = 1 => Same(a[1], c[1]))
ResMatches(r) ==
  /\ r.k = "ok"
  /\ CASE res'.e = "parse" -> SameOpt(res'.v, r.v)
       [] res'.e = "batch" -> Len(r.v) = Len(res'.v) /\ \A x \in DOMAIN r.v : SameOpt(res'.v[x], r.v[x])
       [] OTHER -> r.v = res'.v
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars

(******************************* properties *******************************)
\* what was written reads back as itself, and needs no more than it says
RECURSIVE UnRle(_)
UnRle(q) == IF q = <<>> THEN <<>> ELSE Rep(q[2], q[1]) \o UnRle(SubSeq(q, 3, Len(q)))
ReadsBackOp(o) ==
  /\ o.e \in {"write", "pretty"} => LET j == Json(What(o)) IN Len(j) = 1 /\ Same(j[1], o.v)
  /\ o.e = "rle" => UnRle(What(o)) = Input(o)
  /\ o.e = "xor" => Masked(What(o), o.mask) = Input(o)
  /\ o.e = "b64" => Len(What(o)) = 4 * ((Len(Input(o)) + 2) \div 3)
  /\ o.e = "utf8" /\ What(o) => Bytes(Points(Input(o), 1)) = Input(o)
ReadsBack == res.k # "none" => ReadsBackOp(res.op)
=============================================================================
