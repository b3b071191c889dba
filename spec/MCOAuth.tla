------------------------------ MODULE MCOAuth ------------------------------
EXTENDS OAuth
CONSTANTS MaxTime, GenDepth, NTok, NCode
Cfg == [e |-> "init", cl |-> <<"k1">>, co |-> [n \in 1..NCode |-> "c" \o ToString(n)],
        to |-> [n \in 1..NTok |-> [a |-> "a" \o ToString(n), r |-> "r" \o ToString(n)]]]
CodeNames == pool.co
ANames == {t.a : t \in pool.to}
RNames == {t.r : t \in pool.to}
Issuing == Fresh # {}
Ops == (IF pool.co \subseteq issued THEN {} ELSE
           {[e |-> "code", id |-> "A", user |-> "u", redirect |-> "x", scopes |-> <<"read">>, ch |-> "H:v1", m |-> "S256"],
            [e |-> "code", id |-> "B", user |-> "w", redirect |-> "x", scopes |-> <<>>, ch |-> "none", m |-> "none"]})
  \cup (IF ~Issuing THEN {} ELSE
          [e : {"exchange"}, grant : {"authorization_code"}, code : CodeNames, id : {"A", "B"}, redirect : {"x", "y"}, v : {"v1", "v2"}]
          \cup [e : {"refresh"}, r0 : RNames]
          \cup {[e |-> "token", id |-> "A", user |-> "u", scopes |-> <<"write">>]})
  \cup [e : {"revoke"}, x : RNames \cup ANames]
  \cup [e : {"validate"}, a0 : ANames \cup {"r1"}]
  \cup [e : {"advance"}, d : {600, 601, 3000}]
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == now <= MaxTime
GenView == <<now, codes, toks, refr, issued>>
=============================================================================
