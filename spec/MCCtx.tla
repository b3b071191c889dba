------------------------------- MODULE MCCtx -------------------------------
EXTENDS Ctx
CONSTANTS GenDepth, MaxLevel, Ths
Cfgs == {[e |-> "init", threads |-> k] : k \in Ths}
N(s) == [k |-> "n", v |-> s]
S(s) == [k |-> "s", v |-> s]
Fs == {"f1", "f2"}
Kids == {"g", "h"}
Names == DOMAIN ctx
Work == {f \in DOMAIN fib : fib[f].kids = {}}
Ops == {[e |-> "new", c |-> "a", req |-> q] : q \in {N("7"), S("x-7")}}
  \cup {[e |-> "child", c |-> c, d |-> "b"] : c \in Names}
  \cup {[e |-> "with", c |-> c, what |-> w, key |-> "k", v |-> "v"] : c \in Names, w \in {"user", "session", "client", "meta", "bag"}}
  \cup {[e |-> "out", c |-> c, h |-> "H"] : c \in Names}
  \cup (IF DOMAIN heads = {} THEN {[e |-> "given", h |-> "H", tp |-> t_, rest |-> r_] :
          t_ \in {<<>>, <<"00", "4bf92f3577b34da6a3ce929d0e0e4736", "00f067aa0ba902b7", "01">>, <<"00", "ab", "cd">>},
          r_ \in {<<>>, <<<<"x-request-id", "r-1">>, <<"x-user-id", "u">>, <<"x-session-id", "s">>, <<"baggage-k", "w">>>>}} ELSE {})
  \cup {[e |-> "in", h |-> h, c |-> "b"] : h \in DOMAIN heads}
  \cup {[e |-> "begin", f |-> f] : f \in Fs \ DOMAIN fib}
  \cup {[e |-> "enter", f |-> f, c |-> c] : f \in {y \in Work : Len(fib[y].stk) < 2}, c \in Names}
  \cup {[e |-> "leave", f |-> f, how |-> w] : f \in {y \in Work : Len(fib[y].stk) > fib[y].base}, w \in {"ok", "boom"}}
  \cup {[e |-> "fork", f |-> f, g |-> "g", h |-> "h"] : f \in {y \in Work : Kids \cap DOMAIN fib = {} /\ y \in Fs}}
  \cup {[e |-> "end", f |-> f] : f \in {y \in Work : Len(fib[y].stk) = fib[y].base}}
  \cup {[e |-> "drop", f |-> f] : f \in DOMAIN fib \cap Fs}
  \cup {[e |-> "cur", f |-> f] : f \in Work} \cup {[e |-> "either", f |-> f, c |-> "b", req |-> N("9")] : f \in Work}
  \cup {[e |-> "log", f |-> f, level |-> l, text |-> "hi", fields |-> <<<<"k", "1">>>>] : f \in Work, l \in {"warn"}}
GenView == <<cfg, ctx, heads, fib>>
Bound == TLCGet("level") <= MaxLevel
MCInit == \E c \in Cfgs : InitWith(c)
MCNext == \E o \in Ops : Apply(o)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
