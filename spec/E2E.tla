-------------------------------- MODULE E2E --------------------------------
(***************************************************************************)
(* Clients and a server of the SDK, connected by one of its transports.    *)
(* What the server's handlers are called with and what the clients' calls  *)
(* return; nothing of what is in between.  Values are JSON text.           *)
(*                                                                         *)
(* Each operation plans what the handler it is meant for does: "echo" -    *)
(* answer with what it was called with, "give" - answer with a given value, *)
(* "fail" - fail with an error that is none of the protocol, "refuse" -    *)
(* fail with one that is.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [via, caps: what the server declares, subs: subscriptions too, serve: it has a resource and a sampling handler]
  up,     \* the clients that have completed their handshake
  ran,    \* ghost: handler calls, and calls of clients that were to reach one
  res
vars == <<cfg, up, ran, res>>
Tools == <<"add", "t ö">>
Prompts == <<"ask", "p/2">>
Set(q) == {q[x] : x \in DOMAIN q}
InitWith(c) ==
  /\ cfg = [via |-> c.via, caps |-> Set(c.caps) \cup (IF c.serve THEN {"sampling"} ELSE {}), subs |-> c.subs, serve |-> c.serve]
  /\ up = {} /\ ran = [calls |-> 0, want |-> 0] /\ res = [k |-> "none"]

\* over these there is only one client
Who(x) == IF cfg.via \in {"lines", "ws"} THEN 1 ELSE x.c
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE q[1] \o Concat(Tail(q))
Declared == Concat(SelectSeq(<<"completions", "logging", "prompts", "resources", "sampling", "tools">>, LAMBDA y : y \in cfg.caps))

Needs(w) ==
  CASE w \in {"call", "tools"} -> {"tools"}
    [] w \in {"prompt", "prompts"} -> {"prompts"}
    [] w \in {"read", "list", "sub", "unsub"} -> {"resources"}
    [] w = "sample" -> {"sampling"}
    [] w = "level" -> {"logging"}
    [] OTHER -> {}
Goes(x) == Who(x) \in up /\ Needs(x.what) \subseteq cfg.caps /\ (x.what = "sub" => cfg.subs)
Handled == {"call", "prompt", "read", "list", "sample"}
Serves(x) == CASE x.what = "call" -> x.key \in Set(Tools)
               [] x.what = "prompt" -> x.key \in Set(Prompts)
               [] OTHER -> cfg.serve

Known == {-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004}
Read(c) == IF c \in Known THEN c ELSE IF c <= -32000 /\ c >= -32099 THEN -32603 ELSE c
Ok(v) == [k |-> "ok", v |-> v]
\* an error of the server's own making, which says so in its own words
Wrong == [k |-> "err", code |-> -32603]
Outcome(x) ==
  CASE x.do = "echo" -> Ok(CASE x.what \in {"read", "list"} -> x.key [] OTHER -> x.args)
    [] x.do = "give" -> Ok(x.give)
    [] x.do = "fail" -> [k |-> "err", code |-> -32603, has |-> TRUE]
    [] x.do = "refuse" -> [k |-> "err", code |-> Read(x.code), msg |-> x.give, data |-> x.data]
Plain(x) ==
  CASE x.what = "tools" -> Ok(Tools[1] \o "," \o Tools[2])
    [] x.what = "prompts" -> Ok(Prompts[1] \o "," \o Prompts[2])
    [] x.what = "list" -> [k |-> IF x.do = "echo" THEN "odd" ELSE "ok", v |-> "{\"resources\":[]}"]
    [] x.what \in {"call", "prompt", "read", "sample"} -> Wrong
    [] OTHER -> Ok("")
Reaches(x) == Goes(x) /\ x.what \in Handled /\ Serves(x)
Answer(x) == IF ~Goes(x) THEN [k |-> "local"] ELSE IF Reaches(x) THEN Outcome(x) ELSE Plain(x)
Saw(x) == IF Reaches(x) THEN << <<x.what, x.key, x.args>> >> ELSE <<>>
Hello(x) ==
  IF Who(x) \in up THEN res' = [k |-> "one", x |-> [k |-> "local"], saw |-> <<>>] /\ UNCHANGED <<up, ran>>
  ELSE /\ up' = up \cup {Who(x)}
       /\ res' = [k |-> "one", x |-> Ok("srv ü/1.2||" \o Declared), saw |-> <<>>]
       /\ UNCHANGED ran
Count(S) == ran' = [calls |-> ran.calls + Len(res'.saw), want |-> ran.want + S]
One(o) ==
  IF o.x.what = "hello" THEN Hello(o.x)
  ELSE res' = [k |-> "one", x |-> Answer(o.x), saw |-> Saw(o.x)] /\ Count(IF Reaches(o.x) THEN 1 ELSE 0) /\ UNCHANGED up
\* two calls at the same time
Both(o) == /\ res' = [k |-> "both", x |-> Answer(o.x), y |-> Answer(o.y), saw |-> Saw(o.x) \o Saw(o.y)]
           /\ Count((IF Reaches(o.x) THEN 1 ELSE 0) + (IF Reaches(o.y) THEN 1 ELSE 0)) /\ UNCHANGED up

Apply(o) == (CASE o.e = "do" -> One(o) [] o.e = "both" -> Both(o)) /\ UNCHANGED cfg
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
Fits(r, w) ==
  /\ r.k = w.k
  /\ w.k \in {"ok", "odd"} => r.v = w.v
  /\ w.k = "err" => /\ r.code = w.code
                    /\ "has" \in DOMAIN w => r.has
                    /\ "msg" \in DOMAIN w => r.msg = w.msg /\ r.data = w.data
ResMatches(r) ==
  /\ r.k = res'.k
  /\ Fits(r.x, res'.x)
  /\ r.k = "both" => Fits(r.y, res'.y)
  /\ r.saw = res'.saw \/ (Len(res'.saw) = 2 /\ r.saw = <<res'.saw[2], res'.saw[1]>>)

(******************************* properties ********************************)
\* handlers run once for each call meant for them, and for nothing else
Once == ran.calls = ran.want
\* a client that has not shaken hands reaches nothing; nor does a call for what was not declared
Guarded == res.k \in {"one", "both"} => (res.x.k = "local" /\ (res.k = "both" => res.y.k = "local") => res.saw = <<>>)
NoneUp == up = {} => ran.calls = 0
=============================================================================
