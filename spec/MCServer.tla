------------------------------ MODULE MCServer ------------------------------
EXTENDS Server
CONSTANTS GenDepth, MaxReq
B(n, b) == [n |-> n, b |-> b]
Cfg == [e |-> "init", tools |-> <<B("bad", "fail"), B("echo", "ok"), B("slow", "slow")>>,
        prompts |-> <<B("pf", "refuse"), B("pr", "ok"), B("ps", "slow")>>, res |-> "ok", samp |-> "ok", caps |-> "tools,", name |-> "srv"]
Id(i) == [id |-> i, rid |-> IF i = "n:1" THEN "1" ELSE "1"]
Msgs ==
     {[t |-> "ping", id |-> "n:1", rid |-> "1"], [t |-> "ping", id |-> "s:1", rid |-> "1"],
      [t |-> "call", id |-> "s:x", rid |-> "x", name |-> "zz", args |-> "{}"],
      [t |-> "call", id |-> "n:-7", rid |-> "-7", name |-> "echo", args |-> "{\"a\":[1]}"],
      [t |-> "call", id |-> "n:2", rid |-> "2", name |-> "slow", args |-> "null"],
      [t |-> "call", id |-> "n:3", rid |-> "3", name |-> "bad", args |-> "{}"],
      [t |-> "prompt", id |-> "n:4", rid |-> "4", name |-> "ps", args |-> ""],
      [t |-> "prompt", id |-> "n:6", rid |-> "6", name |-> "pf", args |-> "a=1;"],
      [t |-> "read", id |-> "n:5", rid |-> "5", uri |-> "u"],
      [t |-> "notif", n |-> "initialized"], [t |-> "resp", id |-> "n:1"]}
Ops == {[e |-> "send", ms |-> <<m>>] : m \in Msgs}
  \cup {[e |-> "send", ms |-> <<m1, m2>>] : m1, m2 \in Msgs}
  \cup {[e |-> "open"]}
MCInit == InitWith(Cfg)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == Len(hist.req) <= MaxReq /\ Len(inbox) <= 2
MCView == <<inbox, cur, dead, hist>>
GenView == <<inbox, cur, dead>>
=============================================================================
