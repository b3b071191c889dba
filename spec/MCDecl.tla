------------------------------- MODULE MCDecl -------------------------------
EXTENDS Decl
CONSTANTS GenDepth
Cfg == [e |-> "init"]
O1 == [v |-> "1", l |-> "one", about |-> <<>>, off |-> FALSE]
O2 == [v |-> "s:x", l |-> "two", about |-> <<"why">>, off |-> TRUE]
Sets == {[w |-> "id", v |-> "e1"], [w |-> "desc", v |-> "d"], [w |-> "default", v |-> "s:q"], [w |-> "default", v |-> "7"], [w |-> "required"], [w |-> "min", v |-> "0.5"],
         [w |-> "max", v |-> "9.0"], [w |-> "max", v |-> "-1.0"], [w |-> "pattern", v |-> "^a"], [w |-> "options", l |-> <<O1, O2>>], [w |-> "options", l |-> <<>>], [w |-> "meta", key |-> "k", v |-> "true"], [w |-> "meta", key |-> "k", v |-> "s:2"]}
Ctors == {"text", "boolean", "select", "number", "file"}
Types == {"textarea", "multiSelect", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"}
Lists == {<<>>} \cup {<<x>> : x \in Sets} \cup {<<x, y>> : x \in Sets, y \in Sets}
ASets == {[w |-> "desc", v |-> "d"], [w |-> "required"], [w |-> "values", l |-> <<"a", "b">>], [w |-> "values", l |-> <<>>], [w |-> "files"]}
ALists == {<<>>} \cup {<<x>> : x \in ASets} \cup {<<x, y>> : x \in ASets, y \in ASets} \cup {<<x, y, z>> : x \in ASets, y \in ASets, z \in ASets}
Cap(c, s) == [c |-> c, s |-> s]
CapsOf == {<<>>, <<Cap("tools", <<>>)>>, <<Cap("prompts", <<<<"listChanged", "false">>>>)>>, <<Cap("resources", <<<<"subscribe", "true">>>>)>>, <<Cap("sampling", <<<<"models.0", "s:m">>>>)>>,
           <<Cap("logging", <<>>)>>, <<Cap("tools", <<<<"listChanged", "true">>>>), Cap("sampling", <<>>)>>, <<Cap("resources", <<<<"listChanged", "false">>, <<"subscribe", "false">>>>)>>, <<Cap("experimental", <<>>)>>, <<Cap("experimental", <<<<"x", "1">>>>)>>}
All == {[e |-> "elicit", ctor |-> "select", prompt |-> "p", l |-> <<O1>>, sets |-> x] : x \in Lists}
  \cup {[e |-> "elicit", ctor |-> "number", prompt |-> "p", l |-> <<>>, sets |-> <<x, y, z>>] : x \in Sets, y \in Sets, z \in Sets}
  \cup {[e |-> "elicit", ctor |-> c, prompt |-> "p", l |-> <<O1>>, sets |-> <<>>] : c \in Ctors \cup Types}
  \cup {[e |-> "argument", name |-> "a", sets |-> x] : x \in ALists}
  \cup {[e |-> "auth", kind |-> "none"], [e |-> "auth", kind |-> "bearer", token |-> "t"], [e |-> "auth", kind |-> "bearer", token |-> ""]}
  \cup {[e |-> "auth", kind |-> "oauth", at |-> "a", token |-> "t", client |-> "c", scopes |-> x, back |-> y, proof |-> z] : x \in {<<>>, << <<>> >>, << <<"s", "r">> >>}, y \in {<<>>, <<"b">>}, z \in {<<>>, <<"S256">>, <<"plain">>}}
  \cup {[e |-> "caps", who |-> "client", preset |-> x, decl |-> <<>>] : x \in {"minimal", "full"}}
  \cup {[e |-> "caps", who |-> "server", preset |-> x, decl |-> <<>>] : x \in {"minimal", "tools", "prompts", "resources"}}
  \cup {[e |-> "caps", who |-> x, preset |-> "none", decl |-> y] : x \in {"client", "server"}, y \in CapsOf}
Ops == IF res.k = "none" THEN All ELSE {}
GenView == <<res.k>>
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
Bound == TRUE
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
