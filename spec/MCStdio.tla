------------------------------ MODULE MCStdio ------------------------------
EXTENDS Stdio
CONSTANTS GenDepth, MaxBuf, MaxLevel
CR == <<"CR", "LF">>
\* two messages; the first one is cut inside a character
P1 == <<"{", "\"", "j", "s", "o", "n", "r", "p", "c", "\"", ":", "\"", "2", ".", "0", "\"", ",", "\"", "i", "d", "\"", ":", "\"", "xc3">>
P2 == <<"xa9", "\"", ",", "\"", "r", "e", "s", "u", "l", "t", "\"", ":", "1", "}">>
Q == <<"{", "\"", "j", "s", "o", "n", "r", "p", "c", "\"", ":", "\"", "2", ".", "0", "\"", ",", "\"", "i", "d", "\"", ":", "2", ",", "\"", "r", "e", "s", "u", "l", "t", "\"", ":", "0", "}">>
L1 == <<"3", "8">>
L2 == <<"3", "5">>
Cfg == [e |-> "init", msgs |-> [m1 |-> P1 \o P2, m2 |-> Q]]
Ann(x) == Name \o x
Chunks == { Ann(L1) \o CR \o CR, Ann(L1) \o CR, CR, P1, P2, P2 \o Ann(L2) \o <<"LF", "LF">> \o Q,
            Ann(L2) \o CR \o CR \o Q \o SubSeq(Ann(L1), 1, 9), SubSeq(Ann(L1), 10, Len(Ann(L1))) \o CR \o CR \o P1,
            <<"A", ":", "xff", "LF">>, Ann(<<"9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9">>) \o CR \o CR, Ann(<<"3">>) \o CR \o CR \o <<"{", "}">>, Ann(<<"0">>) \o CR \o CR,
            Ann(<<"x">>) \o CR }
Ops == {[e |-> "feed", b |-> c] : c \in Chunks} \cup {[e |-> x] : x \in {"eof", "recv", "drop", "close"}} \cup {[e |-> "send", m |-> x] : x \in {"m1", "m2"}}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(buf) <= MaxBuf /\ TLCGet("level") <= MaxLevel
MCView == <<buf, eof, closed, pending>>
GenView == <<buf, eof, closed, pending>>
=============================================================================
