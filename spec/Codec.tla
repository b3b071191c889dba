------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The wire format of messages (src/types, src/shared/protocol_helpers.rs, *)
(* StdioTransport::parse_message / serialize_message).                     *)
(*                                                                         *)
(* A JSON value is a record with one of the fields s (string), b, z (null),*)
(* n (number text, with its class c), o (members by name), a (elements).   *)
(* Class: small/neg (fit 32 bits signed), u32, i64+, i64-, u64, f64.       *)
(* Dec reads a value as a type: the form in which it is written again, or  *)
(* Bad.  A message read and written again is the same message: every       *)
(* member the type knows keeps its value, absent and null optional members *)
(* are left out, members with a default appear with it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES res
vars == <<res>>
InitWith(c) == res = [k |-> "none"]

Bad == [bad |-> TRUE]
Drop == [drop |-> TRUE]
Null == [z |-> TRUE]
Is(v, x) == x \in DOMAIN v
S_(x) == [s |-> x]

(********************************* types **********************************)
Str == [k |-> "str"]
Flag == [k |-> "bool"]
Num(cl) == [k |-> "int", cl |-> cl]
I64 == Num({"small", "neg", "u32", "i64+", "i64-"})
I32 == Num({"small", "neg"})
U32 == Num({"small", "u32"})
Size == Num({"small", "u32", "i64+", "u64"})
F64 == [k |-> "f64"]
Val_ == [k |-> "any"]
Enum(names) == [k |-> "enum", names |-> names]
Token == [k |-> "token"]        \* a string or an integer
Arr(t) == [k |-> "arr", t |-> t]
Map(t) == [k |-> "map", t |-> t]
Obj(f) == [k |-> "obj", f |-> f, open |-> FALSE]
Open(f) == [k |-> "obj", f |-> f, open |-> TRUE]       \* keeps members it does not know
OneOf(tag, vs) == [k |-> "oneof", tag |-> tag, vs |-> vs]  \* vs: tag value -> members
Provider == [k |-> "provider"]
Nothing == [k |-> "nothing"]
Req(t) == [t |-> t, m |-> "req"]
Opt(t) == [t |-> t, m |-> "opt"]
Def(t, d) == [t |-> t, m |-> "def", d |-> d]
No == [b |-> FALSE]
None == [x \in {} |-> Null]

Role == Enum({"user", "assistant", "system"})
Content == OneOf("type", [
  text |-> [text |-> Req(Str)],
  image |-> [data |-> Req(Str), mimeType |-> Req(Str)],
  resource |-> [uri |-> Req(Str), text |-> Opt(Str), mimeType |-> Opt(Str)]])
Changes == Obj([listChanged |-> Opt(Flag)])
Empty == Obj(None)
ResourceCaps == Obj([subscribe |-> Opt(Flag), listChanged |-> Opt(Flag)])
LoggingCaps == Obj([levels |-> Opt(Arr(Str))])
SamplingCaps == Obj([models |-> Opt(Arr(Str))])
ClientCaps == Obj([tools |-> Opt(Changes), prompts |-> Opt(Changes), resources |-> Opt(ResourceCaps), logging |-> Opt(LoggingCaps),
  sampling |-> Opt(SamplingCaps), roots |-> Opt(Obj([listChanged |-> Def(Flag, No)])), experimental |-> Opt(Map(Val_))])
ServerCaps == Obj([tools |-> Opt(Changes), prompts |-> Opt(Changes), resources |-> Opt(ResourceCaps), logging |-> Opt(LoggingCaps),
  completions |-> Opt(Empty), sampling |-> Opt(SamplingCaps), experimental |-> Opt(Map(Val_))])
Software == Obj([name |-> Req(Str), version |-> Req(Str)])
Page == Obj([cursor |-> Opt(Str)])
Uri == Obj([uri |-> Req(Str)])
Progress == Obj([progressToken |-> Req(Token), progress |-> Req(F64), message |-> Opt(Str)])
Cancelled == Obj([requestId |-> Req(Token), reason |-> Opt(Str)])
Completing == Open([provider |-> Req(Provider)])
Sampling == Obj([
  messages |-> Req(Arr(Obj([role |-> Req(Role), content |-> Req(Content)]))),
  modelPreferences |-> Opt(Obj([hints |-> Opt(Arr(Obj([name |-> Opt(Str)]))), costPriority |-> Opt(F64), speedPriority |-> Opt(F64),
                                intelligencePriority |-> Opt(F64)])),
  systemPrompt |-> Opt(Str), includeContext |-> Def(Enum({"all", "none", "thisServerOnly"}), S_("none")),
  temperature |-> Opt(F64), maxTokens |-> Opt(U32), stopSequences |-> Opt(Arr(Str)), metadata |-> Opt(Val_)])
Choice == Obj([value |-> Req(Val_), label |-> Req(Str), description |-> Opt(Str), disabled |-> Def(Flag, No)])
Validation == Obj([required |-> Def(Flag, No), min |-> Opt(F64), max |-> Opt(F64), pattern |-> Opt(Str), options |-> Opt(Arr(Choice)), message |-> Opt(Str)])
Asking == Open([elicitationId |-> Req(Str),
  inputType |-> Req(Enum({"text", "textarea", "boolean", "number", "select", "multiSelect", "filePath", "directoryPath", "password", "date", "time",
                          "dateTime", "color", "url", "email"})),
  prompt |-> Req(Str), description |-> Opt(Str), default |-> Opt(Val_), validation |-> Opt(Validation)])
Answering == Obj([elicitationId |-> Req(Str), value |-> Opt(Val_), cancelled |-> Def(Flag, No), error |-> Opt(Str)])

\* the parameters of each method, by the side that sends it
ClientRequests == [
  initialize |-> Obj([protocolVersion |-> Req(Str), capabilities |-> Req(ClientCaps), clientInfo |-> Req(Software)]),
  ping |-> Nothing] @@
  ("tools/list" :> Page) @@ ("prompts/list" :> Page) @@ ("resources/list" :> Page) @@ ("resources/templates/list" :> Page) @@
  ("tools/call" :> Obj([name |-> Req(Str), arguments |-> Def(Val_, Null)])) @@
  ("prompts/get" :> Obj([name |-> Req(Str), arguments |-> Def(Map(Str), [o |-> None])])) @@
  ("resources/read" :> Uri) @@ ("resources/subscribe" :> Uri) @@ ("resources/unsubscribe" :> Uri) @@
  ("completion/complete" :> Obj([ref |-> Req(OneOf("type", ("ref/resource" :> [uri |-> Req(Str)]) @@ ("ref/prompt" :> [name |-> Req(Str)]))),
                                 argument |-> Req(Obj([name |-> Req(Str), value |-> Req(Str)]))])) @@
  ("logging/setLevel" :> Obj([level |-> Req(Enum({"debug", "info", "warning", "error", "critical"}))])) @@
  ("sampling/createMessage" :> Sampling) @@ ("elicitation/response" :> Answering)
ServerRequests == ("sampling/createMessage" :> Sampling) @@ ("roots/list" :> Nothing) @@ ("elicitation/elicitInput" :> Asking)
ClientNotes == ("notifications/initialized" :> Nothing) @@ ("notifications/roots/list_changed" :> Nothing) @@
  ("notifications/cancelled" :> Cancelled) @@ ("notifications/progress" :> Progress)
ServerNotes == ("notifications/progress" :> Progress) @@ ("notifications/tools/list_changed" :> Nothing) @@
  ("notifications/prompts/list_changed" :> Nothing) @@ ("notifications/resources/list_changed" :> Nothing) @@
  ("notifications/roots/list_changed" :> Nothing) @@ ("notifications/resources/updated" :> Uri) @@
  ("notifications/message" :> Obj([level |-> Req(Enum({"debug", "info", "warning", "error"})), logger |-> Opt(Str), message |-> Req(Str), data |-> Opt(Val_)]))
Requests == ClientRequests @@ ServerRequests
Notes == ClientNotes @@ ServerNotes
\* who sends a message, as a reader tells
SideOf(method, note) ==
  IF ~note THEN IF method \in DOMAIN ClientRequests THEN "client" ELSE "server"
  ELSE CASE method = "notifications/progress" -> "progress" [] method = "notifications/cancelled" -> "cancelled"
         [] method \in DOMAIN ClientNotes -> "client" [] OTHER -> "server"

Next_ == [nextCursor |-> Opt(Str)]
Results == [
  initialize |-> Obj([protocolVersion |-> Req(Str), capabilities |-> Req(ServerCaps), serverInfo |-> Req(Software), instructions |-> Opt(Str)]),
  tools |-> Obj([tools |-> Req(Arr(Obj([name |-> Req(Str), description |-> Opt(Str), inputSchema |-> Req(Val_)])))] @@ Next_),
  call |-> Obj([content |-> Def(Arr(Content), [a |-> <<>>]), isError |-> Def(Flag, No)]),
  prompts |-> Obj([prompts |-> Req(Arr(Obj([name |-> Req(Str), description |-> Opt(Str), arguments |->
     Opt(Arr(Obj([name |-> Req(Str), description |-> Opt(Str), required |-> Def(Flag, No), completion |-> Opt(Completing)])))])))] @@ Next_),
  prompt |-> Obj([description |-> Opt(Str), messages |-> Req(Arr(Obj([role |-> Req(Role), content |-> Req(Content)])))]),
  resources |-> Obj([resources |-> Req(Arr(Obj([uri |-> Req(Str), name |-> Req(Str), description |-> Opt(Str), mimeType |-> Opt(Str)])))] @@ Next_),
  templates |-> Obj([resourceTemplates |->
     Req(Arr(Obj([uriTemplate |-> Req(Str), name |-> Req(Str), description |-> Opt(Str), mimeType |-> Opt(Str)])))] @@ Next_),
  read |-> Obj([contents |-> Req(Arr(Content))]),
  complete |-> Obj([completion |-> Req(Obj([values |-> Req(Arr(Str)), total |-> Opt(Size), hasMore |-> Def(Flag, No)]))]),
  sample |-> Obj([content |-> Req(Content), model |-> Req(Str), usage |-> Opt(Obj([inputTokens |-> Req(U32), outputTokens |-> Req(U32), totalTokens |-> Req(U32)])),
     stopReason |-> Opt(Str)]),
  completions |-> Obj([completions |-> Req(Arr(Open([value |-> Req(Str), label |-> Opt(Str), description |-> Opt(Str), icon |-> Opt(Str)]))),
     hasMore |-> Def(Flag, No), continuationToken |-> Opt(Str)]),
  completing |-> Obj([argument |-> Req(Str), partial |-> Req(Str), context |-> Req(Map(Str))])]

(******************************** reading *********************************)
RECURSIVE Dec(_, _), DecObj(_, _, _)
DecObj(f, open, m) ==
  LET Val(x) == IF x \in DOMAIN f
                THEN IF x \in DOMAIN m
                     THEN IF f[x].m = "opt" /\ Is(m[x], "z") THEN Drop ELSE Dec(f[x].t, m[x])
                     ELSE CASE f[x].m = "req" -> Bad [] f[x].m = "opt" -> Drop [] OTHER -> f[x].d
                ELSE IF open THEN m[x] ELSE Drop
      all == [x \in DOMAIN f \cup DOMAIN m |-> Val(x)]
  IN IF \E x \in DOMAIN all : Is(all[x], "bad") THEN Bad
     ELSE [o |-> [x \in {y \in DOMAIN all : ~Is(all[y], "drop")} |-> all[x]]]
Dec(t, v) ==
  CASE t.k = "str" -> IF Is(v, "s") THEN v ELSE Bad
    [] t.k = "bool" -> IF Is(v, "b") THEN v ELSE Bad
    [] t.k = "int" -> IF Is(v, "n") /\ v.c \in t.cl THEN v ELSE Bad
    [] t.k = "f64" -> IF ~Is(v, "n") THEN Bad ELSE IF v.c = "f64" THEN v ELSE [n |-> v.n \o ".0", c |-> "f64"]
    [] t.k = "any" -> v
    [] t.k = "enum" -> IF Is(v, "s") /\ v.s \in t.names THEN v ELSE Bad
    [] t.k = "token" -> IF Is(v, "s") \/ (Is(v, "n") /\ v.c \in I64.cl) THEN v ELSE Bad
    [] t.k = "arr" -> IF ~Is(v, "a") THEN Bad
                      ELSE LET d == [x \in DOMAIN v.a |-> Dec(t.t, v.a[x])]
                           IN IF \E x \in DOMAIN d : Is(d[x], "bad") THEN Bad ELSE [a |-> d]
    [] t.k = "map" -> IF ~Is(v, "o") THEN Bad
                      ELSE LET d == [x \in DOMAIN v.o |-> Dec(t.t, v.o[x])]
                           IN IF \E x \in DOMAIN d : Is(d[x], "bad") THEN Bad ELSE [o |-> d]
    [] t.k = "obj" -> IF Is(v, "o") THEN DecObj(t.f, t.open, v.o) ELSE Bad
    [] t.k = "oneof" ->
         IF ~Is(v, "o") THEN Bad
         ELSE IF t.tag \notin DOMAIN v.o THEN Bad
         ELSE LET g == v.o[t.tag] IN
              IF ~Is(g, "s") THEN Bad
              ELSE IF g.s \notin DOMAIN t.vs THEN Bad
              ELSE LET d == DecObj(t.vs[g.s], FALSE, [x \in DOMAIN v.o \ {t.tag} |-> v.o[x]])
                   IN IF Is(d, "bad") THEN Bad ELSE [o |-> (t.tag :> g) @@ d.o]
    [] t.k = "provider" ->
         IF Is(v, "s") THEN IF v.s \in {"static", "resource", "tool", "file"} THEN v ELSE Bad
         ELSE IF Is(v, "o") /\ DOMAIN v.o = {"custom"} THEN IF Is(v.o.custom, "s") THEN v ELSE Bad
         ELSE Bad
    [] OTHER -> Bad

\* the parameters of a message: those it has, or Drop; none and null are as good as an empty object
Params(t, has, p) ==
  LET none == ~has \/ Is(p, "z") IN
  IF t.k = "nothing" THEN IF none \/ Is(p, "o") THEN Drop ELSE Bad
  ELSE Dec(t, IF none THEN [o |-> None] ELSE p)
Refused == [k |-> "err"]
Join(base, p) == IF Is(p, "drop") THEN [o |-> base] ELSE [o |-> base @@ ("params" :> p)]
Message(v) ==
  IF ~Is(v, "o") THEN Refused
  ELSE LET m == v.o
           has(x) == x \in DOMAIN m
           par == IF has("params") THEN m.params ELSE Null
       IN IF ~has("jsonrpc") THEN Refused
          ELSE IF ~Is(m.jsonrpc, "s") THEN Refused
          ELSE IF has("method")
          THEN IF ~Is(m.method, "s") \/ (has("id") /\ Is(Dec(Token, m.id), "bad")) THEN Refused
               ELSE LET name == m.method.s
                        tab == IF has("id") THEN Requests ELSE Notes
                    IN IF name \notin DOMAIN tab THEN Refused
                       ELSE LET p_ == Params(tab[name], has("params"), par)
                                base == [jsonrpc |-> m.jsonrpc, method |-> m.method] @@ (IF has("id") THEN "id" :> m.id ELSE None)
                            IN IF Is(p_, "bad") THEN Refused
                               ELSE [k |-> "ok", side |-> SideOf(name, ~has("id")), name |-> name, wire |-> Join(base, p_)]
          ELSE IF ~has("id") \/ ~(has("result") \/ has("error")) THEN Refused
          ELSE IF Is(Dec(Token, m.id), "bad") THEN Refused
          ELSE LET e == IF has("result") THEN m.result ELSE Dec(Obj([code |-> Req(I32), message |-> Req(Str), data |-> Opt(Val_)]), m.error)
                   what == IF has("result") THEN "result" ELSE "error"
               IN IF Is(e, "bad") THEN Refused
                  ELSE [k |-> "ok", side |-> what, name |-> "", wire |-> [o |-> [jsonrpc |-> m.jsonrpc, id |-> m.id] @@ (what :> e)]]

\* A message in the SDK's own types, of the given side, is written so that the other side reads the same
Written(o) ==
  LET tab == CASE o.side = "client" -> IF o.note THEN ClientNotes ELSE ClientRequests
               [] o.side = "server" -> IF o.note THEN ServerNotes ELSE ServerRequests
               [] o.side = "progress" -> "notifications/progress" :> Progress
               [] OTHER -> "notifications/cancelled" :> Cancelled
      d == IF tab[o.name].k = "nothing" THEN Drop ELSE Dec(tab[o.name], o.params)
      base == [jsonrpc |-> S_("2.0"), method |-> S_(o.name)] @@ (IF o.note THEN None ELSE "id" :> S_("q"))
  IN IF Is(d, "bad") THEN Refused
     ELSE [k |-> "ok", side |-> SideOf(o.name, o.note), name |-> o.name, wire |-> Join(base, d)]

Result(t, v) == LET d == Dec(t, v) IN IF Is(d, "bad") THEN Refused ELSE [k |-> "ok", side |-> "", name |-> "", wire |-> d]
Out(o) == CASE o.e = "parse" -> Message(o.msg)
            [] o.e = "write" -> Written(o)
            [] o.e = "result" -> Result(Results[o.ty], o.msg)
Apply(o) == res' = Out(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
\* (an empty object and an object with members cannot be compared directly in TLC)
RECURSIVE Eq(_, _)
Eq(x, y) ==
  CASE Is(x, "o") -> IF Is(y, "o") THEN DOMAIN x.o = DOMAIN y.o /\ \A q \in DOMAIN x.o : Eq(x.o[q], y.o[q]) ELSE FALSE
    [] Is(x, "a") -> IF Is(y, "a") THEN DOMAIN x.a = DOMAIN y.a /\ \A q \in DOMAIN x.a : Eq(x.a[q], y.a[q]) ELSE FALSE
    [] OTHER -> x = y
\* r.again: what the message as written is read and written as
ResMatches(r) ==
  IF res'.k = "err" THEN r.k = "err"
  ELSE r.k = "ok" /\ r.side = res'.side /\ r.name = res'.name /\ Eq(res'.wire, r.wire) /\ Eq(res'.wire, r.again)
(******************************* properties *******************************)
\* what was written reads back as itself
Stable == (res.k = "ok" /\ res.side # "") =>
  LET d == Message(res.wire) IN d.k = "ok" /\ d.side = res.side /\ d.name = res.name /\ Eq(d.wire, res.wire)
=============================================================================
