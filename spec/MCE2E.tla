------------------------------- MODULE MCE2E -------------------------------
EXTENDS E2E
CONSTANTS GenDepth
All == <<"completions", "logging", "prompts", "resources", "tools">>
Cfgs == {[e |-> "init", via |-> v, caps |-> All, subs |-> TRUE, serve |-> TRUE] : v \in {"lines", "ws", "http", "json", "bare"}}
        \cup {[e |-> "init", via |-> "lines", caps |-> y, subs |-> sb, serve |-> sv] :
                y \in {<<>>, <<"resources">>, <<"prompts">>, <<"tools">>, <<"logging">>}, sb \in BOOLEAN, sv \in BOOLEAN}
X(w, c, key, args, d, give, code, data, wait) ==
  [what |-> w, c |-> c, key |-> key, args |-> args, do |-> d, give |-> give, code |-> code, data |-> data, wait |-> wait]
E(w, c, key, args) == X(w, c, key, args, "echo", "", 0, "", 0)
Note == "{\"description\":\"d é\",\"messages\":[{\"role\":\"user\",\"content\":{\"type\":\"text\",\"text\":\"line\\nline\"}}]}"
Gave == [call |-> {"null", "\"x\"", "{\"a\":[1,{}],\"b\":\"é\\n\"}", "\"\""},
         prompt |-> {Note, "{\"description\":\"\",\"messages\":[]}"},
         read |-> {"{\"contents\":[]}", "{\"contents\":[{\"type\":\"resource\",\"uri\":\"u:1\",\"text\":\"é\",\"mimeType\":\"a/b\"},{\"type\":\"text\",\"text\":\"\"},{\"type\":\"image\",\"data\":\"AA==\",\"mimeType\":\"i/p\"}]}"},
         list |-> {"{\"resources\":[{\"uri\":\"u:1\",\"name\":\"n\",\"description\":\"d\",\"mimeType\":\"m\"},{\"uri\":\"\",\"name\":\"\"}],\"nextCursor\":\"more\"}"},
         sample |-> {"{\"content\":{\"type\":\"text\",\"text\":\"said\"},\"model\":\"m\",\"stopReason\":\"end\"}"}]
Keys == [call |-> {"add", "t ö", "nope"}, prompt |-> {"ask", "p/2", "nope"}, read |-> {"x://y?z=é#f", ""}, list |-> {"", "next ü"}, sample |-> {""}]
Args == [call |-> {"{}", "{\"a\":1.5,\"b\":[null,\"é\\\"\"]}", "[1]", "null"}, prompt |-> {"{}", "{\"k\":\"v\",\"ö\":\"\\n\"}"}, read |-> {""}, list |-> {""},
         sample |-> {"{\"messages\":[{\"role\":\"user\",\"content\":{\"type\":\"text\",\"text\":\"hi\"}}],\"systemPrompt\":\"sys\",\"includeContext\":\"none\"}"}]
Calls(S, c) ==
  UNION {{E(w, c, key, a) : key \in Keys[w], a \in Args[w]} : w \in S}
  \cup UNION {{X(w, c, key, a, "give", g, 0, "", 0) : key \in Keys[w], a \in Args[w], g \in Gave[w]} : w \in S}
  \cup UNION {{X(w, c, key, a, "fail", "went wrong: é", 0, "", 0) : key \in Keys[w], a \in {CHOOSE y \in Args[w] : TRUE}} : w \in S}
  \cup UNION {{X(w, c, key, a, "refuse", "no", y, d, 0) : key \in Keys[w], a \in {CHOOSE y \in Args[w] : TRUE}, y \in {-32602, -32004, -32050, 7}, d \in {"", "{\"why\":[1]}"}} : w \in S}
Rest(c) == {E(w, c, "", "") : w \in {"tools", "prompts", "ping", "level", "news", "progress"}} \cup {E(w, c, "x://y", "") : w \in {"sub", "unsub"}}
Few(c) == {E("call", c, "add", "{\"n\":" \o ToString(c) \o "}"), X("call", c, "t ö", "{}", "give", "7", 0, "", 3), X("prompt", c, "ask", "{}", "refuse", "no", -32602, "", 0),
           E("tools", c, "", ""), E("read", c, "u:" \o ToString(c), "")}
\* with other names and arguments than the first
More(c) == {E("call", c, "add", "{\"n\":[" \o ToString(c) \o "]}"), X("prompt", c, "p/2", "{\"q\":\"1\"}", "give", Note, 0, "", 3), E("sample", c, "", CHOOSE a \in Args["sample"] : TRUE), E("ping", c, "", "")}
Cs == IF cfg.via \in {"lines", "ws"} THEN {1} ELSE {1, 2}
Ops == {[e |-> "do", x |-> E("hello", c, "", "")] : c \in Cs}
       \cup {[e |-> "do", x |-> y] : y \in UNION {Calls(DOMAIN Keys, c) \cup Rest(c) : c \in {1}}}
       \cup {[e |-> "do", x |-> y] : y \in UNION {Few(c) : c \in Cs}}
       \cup {[e |-> "both", x |-> y, y |-> z] : y \in UNION {Few(c) : c \in Cs}, z \in UNION {More(c) : c \in Cs}}
GenView == <<cfg, up>>
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
Bound == ran.want <= 3
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
