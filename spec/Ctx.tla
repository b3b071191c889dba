-------------------------------- MODULE Ctx --------------------------------
(***************************************************************************)
(* Request contexts (src/shared/context.rs, src/shared/logging.rs): what a *)
(* context carries, how it is handed on to nested operations and - as      *)
(* headers - to other systems, and which one is current in each of several *)
(* concurrent pieces of work.                                              *)
(* A context: req [k: "n"/"s", v], trace, span, parent/user/session/client *)
(* (<<>> or <<value>>), meta and bag (sets of <<key, value>>).             *)
(* Headers: tp - the parts of "traceparent" (<<>> if absent) - and rest,   *)
(* the others.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,
  ctx,     \* name -> context
  heads,   \* name -> headers
  fib,     \* pieces of work: name -> [stk: contexts entered, innermost last; base: how many it began with; kids: those it waits for]
  used,    \* trace and span identifiers seen
  res
vars == <<cfg, ctx, heads, fib, used, res>>
None == <<>>
Set(q) == {q[x] : x \in DOMAIN q}
InitWith(c) == /\ cfg = [threads |-> c.threads] /\ ctx = None /\ heads = None /\ fib = None /\ used = {} /\ res = [k |-> "none"]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
PutPair(S, x, v) == {y \in S : y[1] # x} \cup {<<x, v>>}

(******************************* identifiers ******************************)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Natural(s) == /\ s # "" /\ Len(s) <= 19 /\ \A x \in 1..Len(s) : SubSeq(s, x, x) \in Digits
              /\ (Len(s) > 1 => SubSeq(s, 1, 1) # "0")
IsNum(s) == Natural(s) \/ (Len(s) > 1 /\ SubSeq(s, 1, 1) = "-" /\ SubSeq(s, 2, Len(s)) # "0" /\ Natural(SubSeq(s, 2, Len(s))))
\* new identifiers are the implementation's choice, but must be new
Told(o) == "r" \in DOMAIN o /\ "ctx" \in DOMAIN o.r
Fresh(o, what) == IF Told(o) THEN o.r.ctx[what] ELSE what \o ToString(Cardinality(used))
IsFresh(s) == s \notin used

(******************************** contexts ********************************)
Blank(rq, tr, sp, pa) == [req |-> rq, trace |-> tr, span |-> sp, parent |-> pa, user |-> None, session |-> None, client |-> None, meta |-> {}, bag |-> {}]
Make(o, name, c) == /\ IsFresh(c.span) /\ ctx' = Put(ctx, name, c) /\ used' = used \cup {c.trace, c.span} \cup Set(c.parent)
                    /\ res' = [k |-> "ctx", ctx |-> c] /\ UNCHANGED <<cfg, heads, fib>>
New(o) == LET tr == Fresh(o, "trace") IN IsFresh(tr) /\ tr # Fresh(o, "span") /\ Make(o, o.c, Blank(o.req, tr, Fresh(o, "span"), None))
Child(o) == o.c \in DOMAIN ctx /\ Make(o, o.d, [ctx[o.c] EXCEPT !.parent = <<ctx[o.c].span>>, !.span = Fresh(o, "span")])
With(o) ==
  /\ o.c \in DOMAIN ctx
  /\ LET c == ctx[o.c]
         d == CASE o.what = "user" -> [c EXCEPT !.user = <<o.v>>]
                [] o.what = "session" -> [c EXCEPT !.session = <<o.v>>]
                [] o.what = "client" -> [c EXCEPT !.client = <<o.v>>]
                [] o.what = "meta" -> [c EXCEPT !.meta = PutPair(@, o.key, o.v)]
                [] o.what = "bag" -> [c EXCEPT !.bag = PutPair(@, o.key, o.v)]
     IN ctx' = Put(ctx, o.c, d) /\ res' = [k |-> "ctx", ctx |-> d] /\ UNCHANGED <<cfg, heads, fib, used>>

(********************************* headers ********************************)
Opt(h, q) == IF q = None THEN {} ELSE {<<h, q[1]>>}
HeadersOf(c) == [tp |-> <<"00", c.trace, c.span, "01">>,
                 rest |-> {<<"x-request-id", c.req.v>>} \cup Opt("x-user-id", c.user) \cup Opt("x-session-id", c.session)
                          \cup {<<"baggage-" \o y[1], y[2]>> : y \in c.bag}]
Out(o) == /\ o.c \in DOMAIN ctx /\ heads' = Put(heads, o.h, HeadersOf(ctx[o.c]))
          /\ res' = [k |-> "heads", heads |-> heads'[o.h]] /\ UNCHANGED <<cfg, ctx, fib, used>>
\* headers from elsewhere
Given(o) == /\ heads' = Put(heads, o.h, [tp |-> o.tp, rest |-> Set(o.rest)]) /\ used' = used \cup Set(o.tp)
            /\ res' = [k |-> "ok"] /\ UNCHANGED <<cfg, ctx, fib>>
Head1(h, x) == LET S == {y \in h.rest : y[1] = x} IN IF S = {} THEN None ELSE <<(CHOOSE y \in S : TRUE)[2]>>
IsBag(s) == Len(s) >= 8 /\ SubSeq(s, 1, 8) = "baggage-"
In(o) ==
  /\ o.h \in DOMAIN heads
  /\ LET h == heads[o.h]
         id == Head1(h, "x-request-id")
         rq == IF id # None THEN [k |-> IF IsNum(id[1]) THEN "n" ELSE "s", v |-> id[1]]
               ELSE IF Told(o) THEN o.r.ctx.req ELSE [k |-> "n", v |-> "1"]
     IN IF Len(h.tp) < 4 THEN res' = [k |-> "nothing"] /\ UNCHANGED <<cfg, ctx, heads, fib, used>>
        ELSE /\ rq.k = "n" \/ id # None
             /\ Make(o, o.c, [Blank(rq, h.tp[2], Fresh(o, "span"), <<h.tp[3]>>)
                              EXCEPT !.user = Head1(h, "x-user-id"), !.session = Head1(h, "x-session-id"),
                                     !.bag = {<<SubSeq(y[1], 9, Len(y[1])), y[2]>> : y \in {z \in h.rest : IsBag(z[1])}}])

(**************************** pieces of work ******************************)
Free(f) == f \in DOMAIN fib /\ fib[f].kids = {}
Top(f) == IF fib[f].stk = None THEN None ELSE <<fib[f].stk[Len(fib[f].stk)]>>
Same == UNCHANGED <<cfg, ctx, heads, used>>
Ok == res' = [k |-> "ok"]
Begin(o) == o.f \notin DOMAIN fib /\ fib' = Put(fib, o.f, [stk |-> None, base |-> 0, kids |-> {}, of |-> None]) /\ Ok /\ Same
Enter(o) == Free(o.f) /\ o.c \in DOMAIN ctx /\ fib' = [fib EXCEPT ![o.f].stk = Append(@, ctx[o.c])] /\ Ok /\ Same
\* the work done in the innermost context ends, fails (how = "boom") or is given up; what was current before is so again
Leave(o) == /\ Free(o.f) /\ Len(fib[o.f].stk) > fib[o.f].base
            /\ fib' = [fib EXCEPT ![o.f].stk = SubSeq(@, 1, Len(@) - 1)] /\ Ok /\ Same
\* the work goes on in two parts that take turns
Fork(o) == /\ Free(o.f) /\ o.g \notin DOMAIN fib /\ o.h \notin DOMAIN fib
           /\ fib' = [y \in DOMAIN fib \cup {o.g, o.h} |->
                        IF y = o.f THEN [fib[y] EXCEPT !.kids = {o.g, o.h}]
                        ELSE IF y \in {o.g, o.h} THEN [stk |-> fib[o.f].stk, base |-> Len(fib[o.f].stk), kids |-> {}, of |-> <<o.f>>] ELSE fib[y]]
           /\ Ok /\ Same
RECURSIVE Below(_)
Below(f) == {f} \cup UNION {Below(g) : g \in fib[f].kids}
\* a piece of work ends, or is given up with everything below it
Gone(f) == LET S == Below(f) IN
  [y \in DOMAIN fib \ S |-> IF fib[f].of = <<y>> THEN [fib[y] EXCEPT !.kids = @ \ {f}] ELSE fib[y]]
End(o) == Free(o.f) /\ Len(fib[o.f].stk) = fib[o.f].base /\ fib' = Gone(o.f) /\ Ok /\ Same
Drop(o) == o.f \in DOMAIN fib /\ fib[o.f].of = None /\ fib' = Gone(o.f) /\ Ok /\ Same

Who(c) == [req |-> c.req, trace |-> c.trace, span |-> c.span, user |-> c.user, session |-> c.session]
On(q, F(_)) == IF q = None THEN None ELSE <<F(q[1])>>
Current(o) == Free(o.f) /\ res' = [k |-> "cur", cur |-> Top(o.f), log |-> On(Top(o.f), Who), span |-> On(Top(o.f), Who)] /\ UNCHANGED fib /\ Same
\* the current context, or a new one
Either(o) ==
  /\ Free(o.f) /\ UNCHANGED <<cfg, heads, fib>>
  /\ IF Top(o.f) # None THEN ctx' = Put(ctx, o.c, Top(o.f)[1]) /\ res' = [k |-> "ctx", ctx |-> Top(o.f)[1]] /\ UNCHANGED used
     ELSE New(o)
Level(s) == CASE s \in {"trace", "TRACE"} -> "TRACE" [] s \in {"debug", "Debug"} -> "DEBUG" [] s \in {"warn", "WARN"} -> "WARN" [] s \in {"error", "Error"} -> "ERROR" [] OTHER -> "INFO"
Log(o) == /\ Free(o.f) /\ UNCHANGED fib /\ Same
          /\ res' = [k |-> "log", at |-> Level(o.level), level |-> o.level, text |-> o.text, fields |-> Set(o.fields), who |-> On(Top(o.f), Who)]

(**************************************************************************)
Clean(c) == [c EXCEPT !.meta = Set(@), !.bag = Set(@)]
Bare(c) == Cardinality(Set(c.meta)) = Len(c.meta) /\ Cardinality(Set(c.bag)) = Len(c.bag)
ResMatches(r) ==
  /\ r.k = res'.k
  /\ CASE r.k = "ctx" -> Bare(r.ctx) /\ Clean(r.ctx) = res'.ctx
       [] r.k = "heads" -> r.heads.tp = res'.heads.tp /\ Set(r.heads.rest) = res'.heads.rest
       [] r.k = "cur" -> /\ Len(r.cur) = Len(res'.cur) /\ (r.cur # None => Bare(r.cur[1]) /\ Clean(r.cur[1]) = res'.cur[1])
                         /\ r.log = res'.log /\ r.span = res'.span
       [] r.k = "log" -> r.at = res'.at /\ r.level = res'.level /\ r.text = res'.text /\ Set(r.fields) = res'.fields /\ r.who = res'.who
       [] OTHER -> TRUE
Apply(o) ==
  CASE o.e = "new" -> New(o) [] o.e = "child" -> Child(o) [] o.e = "with" -> With(o)
    [] o.e = "out" -> Out(o) [] o.e = "given" -> Given(o) [] o.e = "in" -> In(o)
    [] o.e = "begin" -> Begin(o) [] o.e = "enter" -> Enter(o) [] o.e = "leave" -> Leave(o) [] o.e = "fork" -> Fork(o)
    [] o.e = "end" -> End(o) [] o.e = "drop" -> Drop(o)
    [] o.e = "cur" -> Current(o) [] o.e = "either" -> Either(o) [] o.e = "log" -> Log(o)
PreApply(o) == FALSE /\ UNCHANGED vars
PostApply(o) == FALSE /\ UNCHANGED vars

(******************************* properties *******************************)
\* A context whose parent is another one's span belongs to the same trace.
Lineage == \A c \in DOMAIN ctx, d \in DOMAIN ctx : ctx[c].parent = <<ctx[d].span>> => ctx[c].trace = ctx[d].trace
\* Every context has a span of its own: equal spans belong to copies of one context.
OwnSpan == \A c \in DOMAIN ctx, d \in DOMAIN ctx : ctx[c].span = ctx[d].span => ctx[c].trace = ctx[d].trace /\ ctx[c].parent = ctx[d].parent
\* What two parts of one piece of work began with is what that piece of work is in.
Inherited == \A f \in DOMAIN fib : \A g \in fib[f].kids : SubSeq(fib[g].stk, 1, fib[g].base) = fib[f].stk
\* A step of one piece of work changes what is current in no other.
Isolated == [][\A f \in DOMAIN fib \cap DOMAIN fib' : \A g \in DOMAIN fib \cap DOMAIN fib' :
                 f # g /\ fib[f].stk # fib'[f].stk => fib[g].stk = fib'[g].stk]_vars
=============================================================================
