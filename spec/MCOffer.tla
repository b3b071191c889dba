------------------------------ MODULE MCOffer ------------------------------
EXTENDS Offer
CONSTANTS GenDepth, MaxTold
Plain == [tools |-> "", prompts |-> "", resources |-> "", sampling |-> "", rest |-> "{}"]
Rich == [tools |-> "{}", prompts |-> "", resources |-> "{\"subscribe\":false}", sampling |-> "{\"models\":[\"m\"]}", rest |-> "{\"logging\":{}}"]
Cfgs == {[e |-> "init", caps |-> Plain, own |-> [tools |-> <<"a">>, prompts |-> <<>>]],
         [e |-> "init", caps |-> Rich, own |-> [tools |-> <<>>, prompts |-> <<"b">>]]}
Names == {"a", "b"}
Lists == {<<>>, <<[n |-> "a", v |-> 1]>>, <<[n |-> "b", v |-> 2], [n |-> "c", v |-> 1]>>}
Chg == [e : {"add"}, q : Listed, n : Names, v : {1, 2}] \cup [e : {"rm"}, q : Listed, n : Names]
       \cup [e : {"set", "unset"}, q : Single]
       \cup [e : {"reload"}, tools : Lists, prompts : {<<>>, <<[n |-> "a", v |-> 1]>>}, resources : {FALSE}, sampling : BOOLEAN]
       \cup [e : {"reload"}, tools : {<<>>}, prompts : Lists, resources : {TRUE}, sampling : {FALSE}]
Ask == [e : {"has"}, q : Listed, n : Names] \cup [e : {"all"}, q : Listed]
Ops == Chg \cup Ask \cup {[e |-> "listen"]}
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \/ \E o \in Ops \cup {[e |-> "look"]} : Apply(o)
          \/ \E o \in Chg : PreApply(o)
          \/ owed > 0 /\ PostApply([e |-> "x"])
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(ears) <= 1 /\ \A i \in DOMAIN ears : Len(ears[i]) <= MaxTold
MCBound == Bound /\ owed <= 2
GenView == <<cfg, tools, prompts, hands, Len(ears)>>
MCView == <<cfg, tools, prompts, hands, ears, owed>>
=============================================================================
