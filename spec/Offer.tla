------------------------------- MODULE Offer -------------------------------
(***************************************************************************)
(* What a server offers, changed while it runs (src/server/dynamic.rs).    *)
(* A change takes effect at once and is then announced to the listeners    *)
(* there are, with the capabilities of what is offered at that time.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* [caps: kind -> declared capability ("" if none), own: kind -> names the server has itself]
  tools,   \* names -> handlers, of those added
  prompts,
  hands,   \* [resources, sampling]: whether a handler is set
  ears,    \* per listener, what it was told since the last look
  owed,    \* changes not announced yet
  res
vars == <<cfg, tools, prompts, hands, ears, owed, res>>
Listed == {"tools", "prompts"}
Single == {"resources", "sampling"}
None == [n \in {} |-> 0]
InitWith(c) ==
  /\ cfg = c /\ tools = None /\ prompts = None /\ hands = [resources |-> FALSE, sampling |-> FALSE]
  /\ ears = <<>> /\ owed = 0 /\ res = [k |-> "none"]

\* what is said of each kind once something of it has been added
Dynamic == [tools |-> "{\"listChanged\":true}", prompts |-> "{\"listChanged\":true}",
            resources |-> "{\"listChanged\":true,\"subscribe\":true}", sampling |-> "{}"]
Caps == [q \in {"tools", "prompts", "resources", "sampling", "rest"} |->
          IF \/ q = "tools" /\ DOMAIN tools # {}
             \/ q = "prompts" /\ DOMAIN prompts # {}
             \/ q \in Single /\ hands[q]
          THEN Dynamic[q] ELSE cfg.caps[q]]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Of(list) == [n \in {list[i].n : i \in DOMAIN list} |-> (CHOOSE i \in DOMAIN list : list[i].n = n)]
FromList(list) == LET at == Of(list) IN [n \in DOMAIN at |-> list[at[n]].v]

\* the change itself
Changes(o) ==
  CASE o.e = "add"    -> /\ IF o.q = "tools" THEN tools' = (o.n :> o.v) @@ tools /\ UNCHANGED prompts
                            ELSE prompts' = (o.n :> o.v) @@ prompts /\ UNCHANGED tools
                         /\ UNCHANGED hands
    [] o.e = "rm"     -> /\ IF o.q = "tools" THEN tools' = Without(tools, o.n) /\ UNCHANGED prompts
                            ELSE prompts' = Without(prompts, o.n) /\ UNCHANGED tools
                         /\ UNCHANGED hands
    [] o.e = "set"    -> hands' = [hands EXCEPT ![o.q] = TRUE] /\ UNCHANGED <<tools, prompts>>
    [] o.e = "unset"  -> hands' = [hands EXCEPT ![o.q] = FALSE] /\ UNCHANGED <<tools, prompts>>
    [] o.e = "reload" -> /\ tools' = FromList(o.tools) /\ prompts' = FromList(o.prompts)
                         /\ hands' = [q \in Single |-> hands[q] \/ o[q]]
Refused(o) == o.e = "rm" /\ o.n \notin (IF o.q = "tools" THEN DOMAIN tools ELSE DOMAIN prompts)
IsChange(o) == o.e \in {"add", "rm", "set", "unset", "reload"}
Table(f) == {[n |-> n, v |-> f[n]] : n \in DOMAIN f}

Apply(o) ==
  /\ UNCHANGED cfg
  /\ \/ /\ IsChange(o) /\ Refused(o)
        /\ res' = [k |-> "err"] /\ UNCHANGED <<tools, prompts, hands, ears, owed>>
     \/ /\ IsChange(o) /\ ~Refused(o)
        /\ Changes(o) /\ ears' = [i \in DOMAIN ears |-> Append(ears[i], Caps')]
        /\ res' = [k |-> "ok"] /\ UNCHANGED owed
     \/ /\ o.e = "listen" /\ ears' = Append(ears, <<>>) /\ res' = [k |-> "ok"]
        /\ UNCHANGED <<tools, prompts, hands, owed>>
     \/ /\ o.e = "has"
        /\ res' = [k |-> "ok", b |-> o.n \in DOMAIN (IF o.q = "tools" THEN tools ELSE prompts)
                                     \/ \E i \in DOMAIN cfg.own[o.q] : cfg.own[o.q][i] = o.n]
        /\ UNCHANGED <<tools, prompts, hands, ears, owed>>
     \/ /\ o.e = "all"
        /\ res' = [k |-> "ok", all |-> Table(IF o.q = "tools" THEN tools ELSE prompts)]
        /\ UNCHANGED <<tools, prompts, hands, ears, owed>>
     \/ /\ o.e = "look" /\ res' = [k |-> "ok", told |-> ears] /\ ears' = [i \in DOMAIN ears |-> <<>>]
        /\ UNCHANGED <<tools, prompts, hands, owed>>
\* with others about, a change may be seen before it is announced
PreApply(o) == IsChange(o) /\ ~Refused(o) /\ Changes(o) /\ owed' = owed + 1 /\ UNCHANGED <<cfg, ears, res>>
PostApply(o) == /\ ears' = [i \in DOMAIN ears |-> Append(ears[i], Caps)]
                /\ owed' = owed - 1 /\ res' = [k |-> "ok"] /\ UNCHANGED <<cfg, tools, prompts, hands>>
ResMatches(r) ==
  IF "all" \in DOMAIN res'
  THEN r.k = "ok" /\ "all" \in DOMAIN r /\ Len(r.all) = Cardinality(res'.all) /\ {r.all[i] : i \in DOMAIN r.all} = res'.all
  ELSE r = res'

(************************ properties of the design ************************)
\* when nothing is left to announce, everybody who was told anything last heard the truth
Told == owed = 0 => \A i \in DOMAIN ears : ears[i] # <<>> => ears[i][Len(ears[i])] = Caps
\* the server's own capabilities are never withdrawn
Kept == \A q \in DOMAIN Caps : cfg.caps[q] # "" => Caps[q] # ""
Advertised == /\ (DOMAIN tools # {} => Caps.tools # "") /\ (DOMAIN prompts # {} => Caps.prompts # "")
              /\ \A q \in Single : hands[q] => Caps[q] # ""
\* a change is one announcement to each listener
Once == [][\A i \in DOMAIN ears : i \in DOMAIN ears' /\ ears'[i] # <<>> => Len(ears'[i]) - Len(ears[i]) \in {0, 1}]_vars
=============================================================================
