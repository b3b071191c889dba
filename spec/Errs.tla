-------------------------------- MODULE Errs --------------------------------
(***************************************************************************)
(* Errors and their way to the other side (src/error/mod.rs,               *)
(* src/types/jsonrpc.rs, and how the server answers with them).  Data is   *)
(* JSON text, "" if there is none.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  er,    \* the error at hand: [proto, code, msg, data, given]
  res
vars == <<er, res>>
Nothing == [proto |-> FALSE, code |-> 0, msg |-> "", data |-> "", given |-> ""]
InitWith(c) == er = Nothing /\ res = [k |-> "none"]

Known == {-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004}
Internal == -32603
\* how a code is read; the rest of the range kept for servers is read as an internal error
Read(c) == IF c \in Known THEN c ELSE IF c <= -32000 /\ c >= -32099 THEN Internal ELSE c
Kind(kk, c) ==
  CASE kk \in {"protocol", "data"} -> [proto |-> TRUE, code |-> c]
    [] kk = "msg" -> [proto |-> TRUE, code |-> Internal]
    [] kk = "parse" -> [proto |-> TRUE, code |-> -32700]
    [] kk = "invalid_request" -> [proto |-> TRUE, code |-> -32600]
    [] kk = "method_not_found" -> [proto |-> TRUE, code |-> -32601]
    [] kk = "invalid_params" -> [proto |-> TRUE, code |-> -32602]
    [] OTHER -> [proto |-> FALSE, code |-> Internal]
Contains(s, w) == \E x \in 0..Len(s) - Len(w) : SubSeq(s, x + 1, x + Len(w)) = w
\* the code that shows, and those of the known ones (and the given one) the error says it has
Shown(z) == [code |-> IF z.proto THEN <<z.code>> ELSE <<>>, is |-> IF z.proto THEN {z.code} ELSE {}]
\* as the other side is told
Wire(z) == [code |-> z.code, msg |-> z.msg, data |-> z.data]
Told(o) == "r" \in DOMAIN o /\ "wire" \in DOMAIN o.r
Exact == {"protocol", "data", "msg", "parse", "invalid_request", "invalid_params"}
Make(o) ==
  LET x == Kind(o.kind, o.code)
      m == IF o.kind \in Exact \/ ~Told(o) THEN o.text ELSE o.r.wire.msg
  IN /\ Contains(m, o.text)
     /\ er' = [proto |-> x.proto, code |-> x.code, msg |-> m, data |-> IF o.kind = "data" THEN o.data ELSE "", given |-> o.text]
     /\ res' = [k |-> "err", shown |-> Shown(er'), wire |-> Wire(er')]
\* told to the other side: "plain" - converted, written, read back; otherwise - returned by a handler of that kind
Send(o) ==
  /\ er # Nothing
  /\ er' = [er EXCEPT !.proto = TRUE, !.code = Read(er.code)]
  /\ res' = [k |-> "err", shown |-> Shown(er'), wire |-> Wire(er')]
Code(o) == res' = [k |-> "code", code |-> Read(o.code)] /\ UNCHANGED er

Apply(o) == CASE o.e = "make" -> Make(o) [] o.e = "send" -> Send(o) [] o.e = "code" -> Code(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
Set(q) == {q[x] : x \in DOMAIN q}
ResMatches(r) ==
  /\ r.k = res'.k
  /\ r.k = "code" => r.code = res'.code
  /\ r.k = "err" => r.wire = res'.wire /\ r.shown.code = res'.shown.code /\ Set(r.shown.is) = res'.shown.is

(******************************* properties ********************************)
TextKept == Contains(er.msg, er.given)
CodeReadable == er.proto /\ res.k = "err" => res.shown.code = <<er.code>>
\* what was read once is told and read the same again
Settles == res.k = "code" => Read(res.code) = res.code
=============================================================================
