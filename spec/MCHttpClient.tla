---------------------------- MODULE MCHttpClient ----------------------------
EXTENDS HttpClient
CONSTANTS GenDepth, MaxStreams
Cfgs == {[e |-> "init", auth |-> a, xtra |-> a, sid |-> s] : a \in BOOLEAN, s \in {"", "s0"}}
M(k, n) == [k |-> k, n |-> n, t |-> "t"]
E(id, ty, m) == [id |-> id, ty |-> ty, m |-> m]
Ev1 == <<E("", "", M("resp", 1))>>
Ev2 == <<E("7", "message", M("note", 2)), E("", "other", M("note", 3)), E("", "", M("junk", 0)), E("8", "", M("req", 4))>>
Ans(st, s, v, ct, ev, end, batch) == [st |-> st, sid |-> s, ver |-> v, ct |-> ct, ev |-> ev, end |-> end, batch |-> batch]
None == <<>>
Answers == {Ans(200, s, v, "json", Ev1, "end", FALSE) : s \in {"", "s1"}, v \in {"", "v1"}}
  \cup {Ans(200, "", "", "json", <<E("", "", M("resp", 1)), E("", "", M("note", 2))>>, "end", TRUE),
        Ans(200, "s2", "", "json", <<E("", "", M("junk", 1))>>, "end", FALSE),
        Ans(200, "", "", "json", <<E("", "", M("resp", 1)), E("", "", M("junk", 2))>>, "end", TRUE),
        Ans(200, "", "", "json", <<>>, "end", TRUE),
        Ans(200, "s1", "v2", "sse", Ev2, "end", FALSE), Ans(200, "", "", "sse", Ev2, "cut", FALSE),
        Ans(200, "", "", "sse", Ev1, "open", FALSE),
        Ans(200, "", "", "text", Ev1, "end", FALSE), Ans(202, "", "v3", "none", None, "end", FALSE), Ans(202, "s3", "", "json", None, "end", FALSE),
        Ans(404, "", "", "json", Ev1, "end", FALSE), Ans(500, "s4", "", "none", None, "end", FALSE), Ans(0, "", "", "none", None, "end", FALSE)}
Streams == {Ans(200, "s5", "", "sse", Ev2, "open", FALSE), Ans(200, "", "v4", "sse", None, "open", FALSE), Ans(200, "", "", "sse", Ev1, "end", FALSE),
            Ans(405, "", "", "none", None, "end", FALSE), Ans(503, "", "", "none", None, "end", FALSE), Ans(0, "", "", "none", None, "end", FALSE)}
Byes == {Ans(st, "", "", "none", None, "end", FALSE) : st \in {200, 405, 500, 0}}
Ops == [e : {"send"}, m : {M("req", 1)}, ans : Answers]
  \cup [e : {"send"}, m : {M("note", 1), M("resp", 1)}, ans : {Ans(202, "", "", "none", None, "end", FALSE)}]
  \cup [e : {"listen"}, tok : {"", "e1"}, ans : Streams]
  \cup {[e |-> "push", h |-> h, ev |-> v, end |-> d] : h \in DOMAIN streams, v \in {Ev2}, d \in {"open", "end", "cut"}}
  \cup [e : {"close"}, ans : Byes]
  \cup [e : {"setsid", "setver"}, v : {"", "u"}]
  \cup (IF cfg.auth THEN {[e |-> "auth", v |-> ~authok]} ELSE {})
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(streams) <= MaxStreams
MCView == <<cfg, sid, ver, last, streams, authok, res.k>>
GenView == <<cfg, sid, ver = "", [n \in DOMAIN streams |-> <<streams[n].get, streams[n].live>>], authok>>
=============================================================================
