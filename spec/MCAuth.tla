------------------------------- MODULE MCAuth -------------------------------
(* Access checks over small provider states. *)
EXTENDS OAuth
CONSTANTS GenDepth
Cfg == [e |-> "init", cl |-> <<"k1">>, co |-> <<"c1">>, to |-> <<[a |-> "a1", r |-> "r1"]>>]
Bearer == [t : {"bearer"}, req : BOOLEAN]
CC == {[t |-> "cc"]}
Leaf == Bearer \cup CC
Stub == [t : {"stub"}, ok : BOOLEAN, scopes : {<<"read">>}, id : {"p", "q"}, code : {-32001}]
Scope == [t : {"scope"}, all : BOOLEAN, scopes : {<<>>, <<"read">>, <<"read", "write">>, <<"admin", "read">>}, inner : Leaf]
Comp == [t : {"comp"}, any : BOOLEAN, list : {<<>>} \cup {<<x>> : x \in Leaf} \cup {<<x, y>> : x \in Leaf \cup Stub, y \in Leaf \cup Stub}]
Checks == Leaf \cup Scope \cup Comp
  \cup [t : {"scope"}, all : {TRUE}, scopes : {<<"write">>}, inner : {c \in Comp : Len(c.list) = 2 /\ c.list[1] \in Bearer}]
  \cup [t : {"comp"}, any : {TRUE}, list : {<<x, y>> : x \in Scope, y \in CC}]
NoCred == [scheme |-> "absent", token |-> "none", cid |-> "none", csec |-> "none"]
Creds == {NoCred}
  \cup [scheme : {"bearer", "none"}, token : {"a1", "r1", "none"}, cid : {"none"}, csec : {"none"}]
  \cup [scheme : {"oauth2"}, token : {"none"}, cid : {"A", "zz", "none"}, csec : {"sec", "bad", "none"}]
Setup == (IF Fresh # {} THEN {[e |-> "token", id |-> "C", user |-> "u", scopes |-> <<"read", "write">>]} ELSE {})
  \cup (IF "A" \in DOMAIN clients THEN {} ELSE {[e |-> "register", id |-> "A", secret |-> "sec", redirects |-> <<"x">>, rtypes |-> <<"code">>, scopes |-> <<"read">>]})
  \cup {[e |-> "revoke", x |-> "a1"]} \cup {[e |-> "advance", d |-> 3601]}
Ops == Setup \cup [e : {"auth"}, mw : Checks, cred : Creds]
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= 3601
GenView == <<now, clients, toks, refr, issued>>
\* nothing is granted to credentials that are not currently good
GrantSound == ("out" \in DOMAIN res /\ res.out.k = "ok") =>
   \/ res.out.client = "anonymous" \/ res.out.ran # <<>>
   \/ res.out.client \in DOMAIN clients
   \/ \E a \in DOMAIN toks : Valid(a) /\ toks[a].client = res.out.client /\ toks[a].scopes = res.out.scopes
=============================================================================
