------------------------------ MODULE MCSse ------------------------------
EXTENDS Sse
CONSTANTS GenDepth, MaxLen
Cfgs == {[e |-> "init", api |-> "parser"]}
Chunks == { <<"d", "a", "t", "a", ":">>, <<"d", "a">>, <<"t", "a", ":", "SP", "x">>, <<"u2">>, <<"u4", "CR">>, <<"SP">>, <<"x">>,
            <<"CR">>, <<"LF">>, <<"CR", "LF">>, <<"LF", "LF">>, <<"CR", "CR">>, <<"LF", "CR", "LF">>,
            <<"i", "d", ":", "1">>, <<"i", "d", ":", "u3", "LF">>, <<"i", "d", ":", "NUL", "LF">>, <<"e", "v", "e", "n", "t", ":", "e">>, <<":">>, <<"r", "e", "t", "r", "y", ":", "5">>,
            <<"d", "a", "t", "a", "LF">>, <<"i", "d", "CR">> }
Opt(v) == {<<>>, <<v>>}
Writes == {<<[id |-> i, event |-> e, data |-> d, retry |-> <<>>], [id |-> <<>>, event |-> <<>>, data |-> <<"x">>, retry |-> <<<<"7">>>>]>> :
             i \in Opt(<<"1">>), e \in Opt(<<"e">>),
             d \in {<<>>, <<"LF">>, <<"u2", "LF">>, <<"LF", "x">>, <<"SP", "x", "LF", "LF", "u4">>, <<":", "x">>}}
Ops == {[e |-> "feed", chunk |-> c] : c \in Chunks} \cup {[e |-> "reset"]} \cup {[e |-> "write", events |-> w] : w \in IF hist = <<>> THEN Writes ELSE {}}
MCInit == \E c \in Cfgs : InitWith(c)
\* single characters
MCOps == {[e |-> "feed", chunk |-> <<c>>] : c \in {"x", "SP", ":", "CR", "LF"}} \cup {[e |-> "feed", chunk |-> q] : q \in {Data, Id \o <<":">>, Data \o <<":", "x", "LF">>}}
MCNext == \E o \in MCOps : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == TLCGet("level") <= MaxLen
GenView == <<ps>>
===========================================================================
