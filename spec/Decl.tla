-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Values made with the builders and constructors (src/types/elicitation,  *)
(* completable, auth, capabilities): what they say and how they are        *)
(* written.  A value's written form is the set of its leaves, each a       *)
(* <<path, text>>; texts are "s:" and the characters for strings and the   *)
(* JSON text for everything else.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ids,   \* identifiers seen
  res
vars == <<ids, res>>
InitWith(c) == ids = {} /\ res = [k |-> "none"]
Set(q) == {q[x] : x \in DOMAIN q}
Str(s) == "s:" \o s
Flag(x) == IF x THEN "true" ELSE "false"
Opt(path, q) == IF q = <<>> THEN {} ELSE {<<path, Str(q[1])>>}
Num(x) == ToString(x)
\* the last of the settings of a kind; <<>> if there is none
Given(sets, w) == LET S == {x \in DOMAIN sets : sets[x].w = w} IN IF S = {} THEN <<>> ELSE <<sets[CHOOSE x \in S : \A y \in S : y <= x]>>
Text(sets, w, path) == LET q == Given(sets, w) IN IF q = <<>> THEN {} ELSE {<<path, Str(q[1].v)>>}
Raw(sets, w, path) == LET q == Given(sets, w) IN IF q = <<>> THEN {} ELSE {<<path, q[1].v>>}
Any_(sets, w) == Given(sets, w) # <<>>

(******************** requests for input (elicitation) *********************)
TypeOf(o) == CASE o.ctor = "text" -> "text" [] o.ctor = "boolean" -> "boolean" [] o.ctor = "select" -> "select" [] o.ctor = "number" -> "number"
               [] o.ctor = "file" -> "filePath" [] OTHER -> o.ctor
OptionsOf(path, l) ==
  IF l = <<>> THEN {<<path, "[]">>}
  ELSE UNION {LET b == path \o "." \o Num(x - 1) \o "." IN
              {<<b \o "value", l[x].v>>, <<b \o "label", Str(l[x].l)>>, <<b \o "disabled", Flag(l[x].off)>>} \cup Opt(b \o "description", l[x].about) : x \in DOMAIN l}
Elicit(o) ==
  LET all == (IF o.ctor = "select" THEN <<[w |-> "options", l |-> o.l]>> ELSE <<>>) \o o.sets
      id == Given(all, "id")
      own == IF id # <<>> THEN id[1].v ELSE IF "r" \in DOMAIN o /\ "id" \in DOMAIN o.r THEN o.r.id ELSE "new" \o Num(Cardinality(ids))
      valid == \E w \in {"required", "min", "max", "pattern", "options"} : Any_(all, w)
      metas == {x \in DOMAIN all : all[x].w = "meta"}
  IN /\ id = <<>> => own # "" /\ own \notin ids
     /\ ids' = ids \cup {own}
     /\ res' = [k |-> "made", says |-> {}, form |->
          {<<"elicitationId", Str(own)>>, <<"inputType", Str(TypeOf(o))>>, <<"prompt", Str(o.prompt)>>}
          \cup Text(all, "desc", "description") \cup Raw(all, "default", "default")
          \cup (IF ~valid THEN {} ELSE {<<"validation.required", Flag(Any_(all, "required"))>>})
          \cup Raw(all, "min", "validation.min") \cup Raw(all, "max", "validation.max") \cup Text(all, "pattern", "validation.pattern")
          \cup (IF ~Any_(all, "options") THEN {} ELSE OptionsOf("validation.options", Given(all, "options")[1].l))
          \cup {<<all[x].key, all[CHOOSE y \in metas : all[y].key = all[x].key /\ \A z \in metas : all[z].key = all[y].key => z <= y].v>> : x \in metas}]

(************************* completable arguments ***************************)
Words(path, l) == IF l = <<>> THEN {<<path, "[]">>} ELSE {<<path \o "." \o Num(x - 1), Str(l[x])>> : x \in DOMAIN l}
Argument(o) ==
  LET S == {x \in DOMAIN o.sets : o.sets[x].w \in {"values", "files"}}
      how == IF S = {} THEN <<>> ELSE <<o.sets[CHOOSE x \in S : \A y \in S : y <= x]>>
  IN /\ res' = [k |-> "made", says |-> {}, form |->
          {<<"name", Str(o.name)>>, <<"required", Flag(Any_(o.sets, "required"))>>} \cup Text(o.sets, "desc", "description")
          \cup (IF how = <<>> THEN {} ELSE IF how[1].w = "files" THEN {<<"completion.provider", Str("file")>>}
                ELSE {<<"completion.provider", Str("static")>>} \cup Words("completion.values", how[1].l))]
     /\ UNCHANGED ids

(**************************** authentication *******************************)
Auth(o) ==
  /\ res' = [k |-> "made",
       says |-> (IF o.kind = "none" THEN {} ELSE {"required"}) \cup (IF o.kind = "bearer" THEN {"Bearer " \o o.token} ELSE {}),
       form |-> CASE o.kind = "none" -> {<<"scheme", Str("none")>>}
                  [] o.kind = "bearer" -> {<<"scheme", Str("bearer")>>, <<"token", Str(o.token)>>}
                  [] o.kind = "oauth" -> {<<"scheme", Str("oAuth2")>>, <<"oauth.authUrl", Str(o.at)>>, <<"oauth.tokenUrl", Str(o.token)>>, <<"oauth.clientId", Str(o.client)>>}
                       \cup (IF o.scopes = <<>> THEN {} ELSE Words("oauth.scopes", o.scopes[1]))
                       \cup Opt("oauth.redirectUri", o.back) \cup Opt("oauth.pkceMethod", o.proof)]
  /\ UNCHANGED ids

(***************************** capabilities ********************************)
\* what is declared: a set of [cap, and its settings as leaves]; settings <<>>: an empty object
Caps(o) ==
  LET decl == CASE o.preset = "minimal" -> <<>>
                [] o.preset = "tools" -> <<[c |-> "tools", s |-> <<<<"listChanged", "true">>>>]>>
                [] o.preset = "prompts" -> <<[c |-> "prompts", s |-> <<<<"listChanged", "true">>>>]>>
                [] o.preset = "resources" -> <<[c |-> "resources", s |-> <<<<"subscribe", "true">>, <<"listChanged", "true">>>>]>>
                [] o.preset = "full" -> <<[c |-> "tools", s |-> <<<<"listChanged", "true">>>>], [c |-> "prompts", s |-> <<<<"listChanged", "true">>>>],
                                          [c |-> "resources", s |-> <<<<"subscribe", "true">>, <<"listChanged", "true">>>>],
                                          [c |-> "logging", s |-> <<<<"levels.0", "s:debug">>, <<"levels.1", "s:info">>, <<"levels.2", "s:warning">>, <<"levels.3", "s:error">>>>],
                                          [c |-> "sampling", s |-> <<>>], [c |-> "roots", s |-> <<<<"listChanged", "true">>>>]>>
                [] o.preset = "none" -> o.decl
  IN /\ res' = [k |-> "made",
          says |-> {decl[x].c : x \in DOMAIN decl} \cap (IF o.who = "client" THEN {"tools", "prompts", "resources", "sampling"} ELSE {"tools", "prompts", "resources"}),
          form |-> IF decl = <<>> THEN {<<"", "{}">>}
                   ELSE UNION {IF decl[x].s = <<>> THEN {<<decl[x].c, "{}">>} ELSE {<<decl[x].c \o "." \o decl[x].s[y][1], decl[x].s[y][2]>> : y \in DOMAIN decl[x].s} : x \in DOMAIN decl}]
     /\ UNCHANGED ids

Apply(o) == CASE o.e = "elicit" -> Elicit(o) [] o.e = "argument" -> Argument(o) [] o.e = "auth" -> Auth(o) [] o.e = "caps" -> Caps(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars
ResMatches(r) == /\ r.k = res'.k
                 /\ r.k = "made" => /\ Set(r.form) = res'.form /\ Len(r.form) = Cardinality(res'.form)
                                    /\ Set(r.back) = res'.form /\ Set(r.says) = res'.says

(******************************* properties ********************************)
\* every path is written once
OnePerPath == res.k = "made" => \A x, y \in res.form : x[1] = y[1] => x = y
=============================================================================
