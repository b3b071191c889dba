------------------------------ MODULE MCCodec ------------------------------
(* Messages of every kind, complete and minimal ones and those with one thing changed. *)
EXTENDS Codec
CONSTANTS GenDepth
Cfg == [e |-> "init"]
N(x, c) == [n |-> x, c |-> c]
Strs == {S_(""), S_("x y"), S_("2"), S_("null")}
Bools == {[b |-> TRUE], [b |-> FALSE]}
Ints == {N("0", "small"), N("7", "small"), N("2147483647", "small"), N("-3", "neg"), N("-2147483648", "neg")}
Bigs == {N("2147483648", "u32"), N("4294967295", "u32"), N("4294967296", "i64+"), N("9007199254740993", "i64+"), N("-2147483649", "i64-"),
         N("-9223372036854775808", "i64-"), N("9223372036854775807", "i64+"), N("9223372036854775808", "u64"), N("18446744073709551615", "u64")}
Floats == {N("1.5", "f64"), N("-0.25", "f64"), N("5.0", "f64"), N("0.1", "f64")}
Conts == {[a |-> <<>>], [a |-> <<Null, [b |-> TRUE], S_("x")>>], [o |-> None], [o |-> [a |-> Null, b |-> [a |-> <<[o |-> [c |-> N("-3", "neg")]]>>]]]}
Few == {S_("x y"), N("7", "small"), N("1.5", "f64"), [b |-> TRUE], Null, [o |-> None], [a |-> <<>>]}
RECURSIVE Full(_), Least(_), Muts(_), FullObj(_), MutObj(_, _)
FullObj(f) == [x \in DOMAIN f |-> Full(f[x].t)]
LeastObj(f) == [x \in {y \in DOMAIN f : f[y].m = "req"} |-> Least(f[x].t)]
Full(t) ==
  CASE t.k = "str" -> S_("x y") [] t.k = "bool" -> [b |-> TRUE] [] t.k = "int" -> N("7", "small") [] t.k = "f64" -> N("0.1", "f64")
    [] t.k = "any" -> [o |-> [p |-> [a |-> <<N("7", "small"), Null>>]]]
    [] t.k = "enum" -> S_(CHOOSE x \in t.names : TRUE)
    [] t.k = "token" -> N("-3", "neg")
    [] t.k = "arr" -> [a |-> <<Full(t.t), Least(t.t)>>]
    [] t.k = "map" -> [o |-> [k |-> Full(t.t), l |-> Least(t.t)]]
    [] t.k = "obj" -> [o |-> FullObj(t.f)]
    [] t.k = "oneof" -> LET g == CHOOSE x \in DOMAIN t.vs : TRUE IN [o |-> (t.tag :> S_(g)) @@ FullObj(t.vs[g])]
    [] t.k = "provider" -> [o |-> [custom |-> S_("c")]]
    [] OTHER -> [o |-> None]
Least(t) ==
  CASE t.k = "str" -> S_("") [] t.k = "bool" -> [b |-> FALSE] [] t.k = "int" -> N("0", "small") [] t.k = "f64" -> N("7", "small")
    [] t.k = "any" -> Null [] t.k = "token" -> S_("2") [] t.k = "arr" -> [a |-> <<>>] [] t.k = "map" -> [o |-> None]
    [] t.k = "obj" -> [o |-> LeastObj(t.f)]
    [] t.k = "oneof" -> LET g == CHOOSE x \in DOMAIN t.vs : TRUE IN [o |-> (t.tag :> S_(g)) @@ LeastObj(t.vs[g])]
    [] t.k = "provider" -> S_("static")
    [] OTHER -> Full(t)
\* one member changed, left out or added
MutObj(f, v) ==
  UNION {{[v EXCEPT ![x] = y] : y \in Muts(f[x].t) \cup {Null}} \cup {[z \in DOMAIN v \ {x} |-> v[z]]} : x \in DOMAIN v}
  \cup {v @@ ("_meta" :> y) : y \in Few}
Muts(t) ==
  CASE t.k = "str" -> Strs \cup Few
    [] t.k = "bool" -> Bools \cup Few
    [] t.k = "int" -> Ints \cup Bigs \cup Floats \cup Few
    [] t.k = "f64" -> Ints \cup Floats \cup Few
    [] t.k = "any" -> Strs \cup Ints \cup Bigs \cup Floats \cup Bools \cup Conts \cup Few
    [] t.k = "enum" -> {S_(x) : x \in t.names} \cup {S_("User"), S_("none "), S_("")} \cup (Few \ {[o |-> None]})
    [] t.k = "token" -> Strs \cup Ints \cup Bigs \cup Floats \cup Few
    [] t.k = "arr" -> {[a |-> <<>>], [a |-> <<Least(t.t), Full(t.t), Least(t.t)>>]} \cup {[a |-> <<x>>] : x \in Muts(t.t)} \cup Few
    [] t.k = "map" -> {[o |-> [q |-> x]] : x \in Muts(t.t)} \cup Few
    [] t.k = "obj" -> {[o |-> x] : x \in MutObj(t.f, FullObj(t.f))} \cup {Least(t)} \cup (Few \ {[a |-> <<>>]})
    [] t.k = "oneof" -> UNION {{[o |-> (t.tag :> S_(g)) @@ x] : x \in MutObj(t.vs[g], FullObj(t.vs[g])) \cup {LeastObj(t.vs[g])}} : g \in DOMAIN t.vs}
                        \cup {[o |-> FullObj(t.vs[g])] : g \in DOMAIN t.vs} \cup {[o |-> t.tag :> S_("zz")], [o |-> t.tag :> Null]} \cup (Few \ {[a |-> <<>>]})
    [] t.k = "provider" -> {S_(x) : x \in {"static", "resource", "tool", "file", "custom", "zz"}} \cup {[o |-> [custom |-> x]] : x \in Strs} \cup (Few \ {[o |-> None]})
    [] OTHER -> Few
Base(m, note) == [jsonrpc |-> S_("2.0"), method |-> S_(m)] @@ IF note THEN None ELSE "id" :> N("7", "small")
\* positional parameters are not covered
Objs(X) == {x \in X : ~Is(x, "a")}
Posted(tab, note) ==
  UNION {{[o |-> Base(m, note) @@ ("params" :> x)] : x \in IF tab[m].k = "nothing" THEN Few ELSE Objs(Muts(tab[m]) \cup {Full(tab[m])})} \cup {[o |-> Base(m, note)]}
         : m \in DOMAIN tab}
Envelope ==
  LET Ok == [o |-> [jsonrpc |-> S_("2.0"), id |-> N("7", "small"), method |-> S_("ping")]]
      Note == [o |-> [jsonrpc |-> S_("2.0"), method |-> S_("notifications/initialized")]]
      Res == [o |-> [jsonrpc |-> S_("2.0"), id |-> N("7", "small"), result |-> Full(Val_)]]
      Err == [o |-> [jsonrpc |-> S_("2.0"), id |-> N("7", "small"), error |-> [o |-> [code |-> N("-3", "neg"), message |-> S_("m"), data |-> Null]]]]
      ErrT == Obj([code |-> Req(I32), message |-> Req(Str), data |-> Opt(Val_)])
      With(v, x, y) == [o |-> (x :> y) @@ v.o]
      Less(v, x) == [o |-> [z \in DOMAIN v.o \ {x} |-> v.o[z]]]
  IN {With(v, "id", x) : v \in {Ok, Res, Err}, x \in Muts(Token)}
     \cup {Less(v, x) : v \in {Ok, Note, Res, Err}, x \in {"id", "method", "jsonrpc", "result", "error"}}
     \cup {With(v, "extra", x) : v \in {Ok, Note, Res, Err}, x \in Few}
     \cup {With(v, "method", x) : v \in {Ok, Note}, x \in Few \cup {S_(y) : y \in DOMAIN Requests \cup DOMAIN Notes} \cup {S_("Ping"), S_("tools/list/x")}}
     \cup {With(Res, "result", x) : x \in Muts(Val_)} \cup {With(Err, "error", x) : x \in Objs(Muts(ErrT))}
     \cup Few
Sides == {<<"client", FALSE>>, <<"client", TRUE>>, <<"server", FALSE>>, <<"server", TRUE>>, <<"progress", TRUE>>, <<"cancelled", TRUE>>}
Tab(s_) == CASE s_ = <<"client", FALSE>> -> ClientRequests [] s_ = <<"client", TRUE>> -> ClientNotes
            [] s_ = <<"server", FALSE>> -> ServerRequests [] s_ = <<"server", TRUE>> -> ServerNotes
            [] s_[1] = "progress" -> "notifications/progress" :> Progress [] OTHER -> "notifications/cancelled" :> Cancelled
Writes == UNION {UNION {{[e |-> "write", side |-> s_[1], note |-> s_[2], name |-> m, params |-> x]
                          : x \in IF Tab(s_)[m].k = "nothing" THEN {[o |-> None]} ELSE {Full(Tab(s_)[m]), Least(Tab(s_)[m])} \cup {y \in Muts(Tab(s_)[m]) : ~Is(Dec(Tab(s_)[m], y), "bad")}}
                        : m \in DOMAIN Tab(s_)} : s_ \in Sides}
Ops == {[e |-> "parse", msg |-> x] : x \in Posted(Requests, FALSE) \cup Posted(Notes, TRUE) \cup Envelope}
  \cup Writes
  \cup UNION {{[e |-> "result", ty |-> t, msg |-> x] : x \in Objs(Muts(Results[t])) \cup {Full(Results[t])}} : t \in DOMAIN Results}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][res.k = "none" /\ MCNext]_vars
Bound == TRUE
GenView == <<res.k = "zz">>
=============================================================================
