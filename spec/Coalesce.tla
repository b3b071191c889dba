------------------------------ MODULE Coalesce ------------------------------
(***************************************************************************)
(* Coalescing of notifications: debouncers (src/server/                     *)
(* notification_debouncer.rs NotificationDebouncer, src/utils/batching.rs   *)
(* MessageDebouncer) and batchers (NotificationBatcher, MessageBatcher).    *)
(* Times are milliseconds.                                                  *)
(*  deb: per key, the latest message (or, merging, all of them up to a      *)
(*       limit, the last one being the latest) leaves after a quiet period  *)
(*       or a maximum wait, at most `slack` later.                          *)
(*  bat: per key, messages leave in batches of at most `cap`, a full batch  *)
(*       at once, the others before the maximum wait (plus slack) is over.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,
  now,
  on,      \* the timers run
  pend,    \* key -> [q : messages waiting, first, upd, iv]
  out,     \* key -> sequence of deliveries (sequences of messages) not yet seen
  res
vars == <<cfg, now, on, pend, out, res>>
None == [x \in {} |-> 0]
InitWith(c) ==
  /\ cfg = [kind |-> c.kind, merge |-> c.merge, cap |-> c.cap, iv |-> c.iv, dflt |-> c.dflt,
            maxwait |-> c.maxwait, slack |-> c.slack, direct |-> c.direct]
  /\ now = 0 /\ on = c.on /\ pend = None /\ out = None /\ res = [k |-> "none"]
Ok == [k |-> "ok"]
Deb == cfg.kind = "deb"
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b
\* what the pending messages of one key become when they leave
Singles(q) == [n \in DOMAIN q |-> <<q[n]>>]
Parts(q) == IF Deb THEN Singles(q) ELSE <<q>>
OutOf(k) == IF k \in DOMAIN out THEN out[k] ELSE <<>>
\* keys S leave
Leave(f, S) == [k \in DOMAIN out \cup S |-> OutOf(k) \o (IF k \in S THEN Parts(f[k].q) ELSE <<>>)]

Quiet(ty) == IF ty \in DOMAIN cfg.iv THEN cfg.iv[ty] ELSE cfg.dflt
\* may leave / must have left
May(k)     == IF Deb THEN ~on \/ now - pend[k].upd >= pend[k].iv \/ now - pend[k].first >= cfg.maxwait ELSE TRUE
MustBy(p, t) == on /\ (\/ Deb /\ t - p.upd >= p.iv + cfg.slack
                       \/ t - p.first >= cfg.maxwait + cfg.slack)

Supersede(q, v) ==
  IF ~Deb THEN Append(q, v)
  ELSE IF ~cfg.merge THEN <<v>>
  ELSE IF Len(q) < 1 + cfg.cap THEN Append(q, v)
  ELSE [q EXCEPT ![Len(q)] = v]
Add(k, ty, v) ==
  LET old == IF k \in DOMAIN pend THEN pend[k].q ELSE <<>>
      p   == [q |-> Supersede(old, v), upd |-> now, iv |-> Quiet(ty),
              first |-> IF old = <<>> THEN now ELSE pend[k].first]
      f   == (k :> p) @@ pend
  IN /\ IF ~Deb /\ Len(p.q) >= Max(1, cfg.cap)
        THEN out' = Leave(f, {k}) /\ pend' = Drop(f, {k})
        ELSE pend' = f /\ UNCHANGED out
     /\ res' = Ok /\ UNCHANGED <<cfg, now, on>>
\* very many messages at once, numbered from v
Fill(k, ty, v, nn) ==
  LET old == IF k \in DOMAIN pend THEN pend[k].q ELSE <<>>
      all == old \o [x \in 1..nn |-> v + x - 1]
      c   == Max(1, cfg.cap)
      fulls == Len(all) \div c
      rest == SubSeq(all, (c * fulls) + 1, Len(all))
      p   == [q |-> rest, upd |-> now, iv |-> Quiet(ty),
              first |-> IF old = <<>> \/ fulls > 0 THEN now ELSE pend[k].first]
  IN /\ ~Deb
     /\ out' = IF fulls = 0 THEN out
               ELSE (k :> (OutOf(k) \o [x \in 1..fulls |-> SubSeq(all, (c * (x - 1)) + 1, c * x)])) @@ out
     /\ pend' = IF rest = <<>> THEN Drop(pend, {k}) ELSE (k :> p) @@ pend
     /\ res' = Ok /\ UNCHANGED <<cfg, now, on>>
\* a timer goes off
Fire(k) == /\ k \in DOMAIN pend /\ May(k)
           /\ out' = Leave(pend, {k}) /\ pend' = Drop(pend, {k})
           /\ res' = [k |-> "tau"] /\ UNCHANGED <<cfg, now, on>>
Tau == \E k \in DOMAIN pend : Fire(k)
Time(d) ==
  LET S == {k \in DOMAIN pend : MustBy(pend[k], now + d)} IN
  /\ now' = now + d /\ out' = Leave(pend, S) /\ pend' = Drop(pend, S)
  /\ res' = Ok /\ UNCHANGED <<cfg, on>>
\* everything waiting leaves: to the output, or to the caller
Flush ==
  /\ IF cfg.direct
     THEN /\ res' = [k |-> "ok", got |-> {<<k, pend[k].q>> : k \in DOMAIN pend}] /\ UNCHANGED out
     ELSE /\ out' = Leave(pend, DOMAIN pend) /\ res' = Ok
  /\ pend' = None /\ UNCHANGED <<cfg, now, on>>
\* the timers stop after a last flush
Stop == /\ on' = FALSE /\ res' = Ok
        /\ IF on THEN out' = Leave(pend, DOMAIN pend) /\ pend' = None ELSE UNCHANGED <<out, pend>>
        /\ UNCHANGED <<cfg, now>>
Stats == /\ res' = [k |-> "ok", keys |-> Cardinality(DOMAIN pend)]
         /\ UNCHANGED <<cfg, now, on, pend, out>>
\* what has been delivered since the last look, nothing being left on the way
Look == /\ res' = [k |-> "ok", out |-> out]
        /\ out' = None /\ UNCHANGED <<cfg, now, on, pend>>
Apply(o) ==
  CASE o.e = "add"   -> Add(o.key, o.ty, o.v)
    [] o.e = "fill"  -> Fill(o.key, o.ty, o.v, o.n)
    [] o.e = "time"  -> Time(o.d)
    [] o.e = "flush" -> Flush
    [] o.e = "stop"  -> Stop
    [] o.e = "stats" -> Stats
    [] o.e = "look"  -> Look
    [] OTHER -> FALSE
PreApply(o) == FALSE
PostApply(o) == FALSE
Of(s, k) == LET m == SelectSeq(s, LAMBDA x : x.key = k) IN [n \in DOMAIN m |-> m[n].vs]
ResMatches(r) ==
  IF "out" \in DOMAIN res'
  THEN /\ \A n \in DOMAIN r.out : r.out[n].key \in DOMAIN res'.out
       /\ \A k \in DOMAIN res'.out : Of(r.out, k) = res'.out[k]
  ELSE IF "got" \in DOMAIN res'
  THEN /\ Len(r.got) = Cardinality(res'.got)
       /\ {<<r.got[n].key, r.got[n].vs>> : n \in DOMAIN r.got} = res'.got
  ELSE r = res'

(************************ properties of the design ************************)
Range(s) == {s[n] : n \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Waiting(k) == IF k \in DOMAIN pend THEN pend[k].q ELSE <<>>
NothingEmpty == (\A k \in DOMAIN pend : pend[k].q # <<>>) /\ \A k \in DOMAIN out : \A n \in DOMAIN out[k] : out[k][n] # <<>>
BatchSize == ~Deb => \A k \in DOMAIN out : \A n \in DOMAIN out[k] : Len(out[k][n]) <= Max(1, cfg.cap)
NotLate == \A k \in DOMAIN pend : ~MustBy(pend[k], now)
\* messages of a key pass from waiting to the output in order, each once; those of a batcher
\* and the latest of a debouncer are never dropped
Conserve == [][\A k \in (DOMAIN pend \cup DOMAIN out \cup DOMAIN pend' \cup DOMAIN out') :
                 LET was == Flat(OutOf(k)) \o Waiting(k)
                     is  == Flat(IF k \in DOMAIN out' THEN out'[k] ELSE <<>>) \o (IF k \in DOMAIN pend' THEN pend'[k].q ELSE <<>>)
                 IN \/ res'.k = "ok" /\ ("out" \in DOMAIN res' \/ "got" \in DOMAIN res')   \* seen, or handed to the caller
                    \/ is = was
                    \/ ~Deb /\ Len(is) >= Len(was) /\ SubSeq(is, 1, Len(was)) = was
                    \/ is # <<>> /\ \E n \in 0..Len(was) : SubSeq(is, 1, Len(is) - 1) = SubSeq(was, 1, n) /\ Deb]_vars
=============================================================================
