----------------------------- MODULE HttpClient -----------------------------
(***************************************************************************)
(* The HTTP client transport (src/shared/streamable_http.rs) talking to an *)
(* arbitrary server.  Each operation comes with the server's answer; its   *)
(* result holds the requests the server saw and what reached the client's  *)
(* user: messages in order, event ids, session and version.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,      \* [auth, xtra]: a token provider is configured; an extra header is
  sid, ver, \* session id and protocol version ("" if none)
  last,     \* last event id
  streams,  \* per stream the server left open: [get, live]
  authok,   \* the token provider works
  tokens,   \* tokens asked of it
  res
vars == <<cfg, sid, ver, last, streams, authok, tokens, res>>
InitWith(c) ==
  /\ cfg = c /\ sid = c.sid /\ ver = "" /\ last = "" /\ streams = <<>>
  /\ authok = TRUE /\ tokens = 0 /\ res = [k |-> "none"]

Or(a, b) == IF a # "" THEN a ELSE b
\* a request as the server sees it
Seen(method, acc, ct, msg, tok) ==
  [method |-> method, sid |-> sid, ver |-> ver, accept |-> acc, ct |-> ct, msg |-> msg, last |-> tok,
   auth |-> IF cfg.auth THEN "t" \o ToString(tokens + 1) ELSE "", xtra |-> IF cfg.xtra THEN "x" ELSE ""]
Nothing == [k |-> "", n |-> 0, t |-> ""]
Junk(m) == m.k = "junk"

(* Events of a stream: all ids count (an event without one has that of the event before it in its *)
(* stream), messages are those of message events.  from: the id the stream had before. *)
RECURSIVE Ids(_, _)
Ids(es, from) ==
  IF es = <<>> THEN <<>>
  ELSE LET i == Or(es[1].id, from) IN (IF i = "" THEN <<>> ELSE <<i>>) \o Ids(Tail(es), i)
Msgs(es) == LET f == SelectSeq(es, LAMBDA e : e.ty \in {"", "message"} /\ ~Junk(e.m)) IN [n \in DOMAIN f |-> f[n].m]
\* an event cut off by the end of the stream is none
Whole(es, end) == IF end = "cut" /\ es # <<>> THEN SubSeq(es, 1, Len(es) - 1) ELSE es
LastOf(ids, d) == IF ids = <<>> THEN d ELSE ids[Len(ids)]

Answer(k, req, got, ids) ==
  /\ last' = LastOf(ids, last)
  /\ res' = [k |-> k, req |-> req, got |-> got, ids |-> ids, sid |-> sid', ver |-> ver', last |-> last']
Learn(a) == sid' = Or(a.sid, sid) /\ ver' = Or(a.ver, ver)
Same == UNCHANGED <<sid, ver>>
NoToken == cfg.auth /\ ~authok
Ask == tokens' = IF cfg.auth THEN tokens + 1 ELSE tokens
Opened(ss, get, a, ids) == Append(ss, [get |-> get, live |-> a.end = "open", id |-> LastOf(ids, "")])
Hushed == [n \in DOMAIN streams |-> IF streams[n].get THEN [streams[n] EXCEPT !.live = FALSE] ELSE streams[n]]

Send(m, a) ==
  LET req == <<Seen("POST", "application/json, text/event-stream", "application/json", m, "")>>
      es == Whole(a.ev, a.end)
      ids == Ids(es, "")
      plain == [n \in DOMAIN a.ev |-> a.ev[n].m] IN
  /\ Ask /\ UNCHANGED <<cfg, authok>>
  /\ IF NoToken THEN Same /\ Answer("err", <<>>, <<>>, <<>>) /\ UNCHANGED streams
     ELSE IF a.st = 0 THEN Same /\ Answer("err", req, <<>>, <<>>) /\ UNCHANGED streams
     ELSE /\ Learn(a)
          /\ IF a.st = 202 THEN Answer("ok", req, <<>>, <<>>) /\ UNCHANGED streams
             ELSE IF a.st \notin 200..299 THEN Answer("err", req, <<>>, <<>>) /\ UNCHANGED streams
             ELSE IF a.ct = "json"
             THEN /\ UNCHANGED streams
                  /\ IF \E n \in DOMAIN plain : Junk(plain[n]) THEN Answer("err", req, <<>>, <<>>)
                     ELSE Answer("ok", req, plain, <<>>)
             ELSE IF a.ct = "sse"
             THEN Answer("ok", req, Msgs(es), ids) /\ streams' = Opened(streams, FALSE, a, ids)
             ELSE Answer("err", req, <<>>, <<>>) /\ UNCHANGED streams
\* listening on a stream of its own takes the place of the one there was
Listen(tok, a) ==
  LET req == <<Seen("GET", "text/event-stream", "", Nothing, tok)>>
      es == Whole(a.ev, a.end)
      ids == Ids(es, "") IN
  /\ Ask /\ UNCHANGED <<cfg, authok>>
  /\ IF NoToken THEN Same /\ Answer("err", <<>>, <<>>, <<>>) /\ streams' = Hushed
     ELSE IF a.st = 405 THEN Same /\ Answer("ok", req, <<>>, <<>>) /\ streams' = Hushed
     ELSE IF a.st \notin 200..299 THEN Same /\ Answer("err", req, <<>>, <<>>) /\ streams' = Hushed
     ELSE Learn(a) /\ Answer("ok", req, Msgs(es), ids) /\ streams' = Opened(Hushed, TRUE, a, ids)
\* the server writes more on a stream it left open
Push(h, es0, end) ==
  LET x == streams[h]
      es == Whole(es0, end)
      ids == IF x.live THEN Ids(es, x.id) ELSE <<>> IN
  /\ h \in DOMAIN streams
  /\ streams' = [streams EXCEPT ![h].live = @ /\ end = "open", ![h].id = LastOf(ids, @)]
  /\ Same /\ Answer("ok", <<>>, IF x.live THEN Msgs(es) ELSE <<>>, ids)
  /\ UNCHANGED <<cfg, authok, tokens>>
Close(a) ==
  LET req == <<Seen("DELETE", "*/*", "", Nothing, "")>> IN
  /\ streams' = Hushed /\ UNCHANGED <<cfg, authok, ver>>
  /\ IF sid = "" THEN UNCHANGED <<sid, tokens>> /\ Answer("ok", <<>>, <<>>, <<>>)
     ELSE /\ Ask
          /\ IF NoToken THEN UNCHANGED sid /\ Answer("err", <<>>, <<>>, <<>>)
             ELSE sid' = "" /\ Answer("ok", req, <<>>, <<>>)

Apply(o) ==
  CASE o.e = "send"   -> Send(o.m, o.ans)
    [] o.e = "listen" -> Listen(o.tok, o.ans)
    [] o.e = "push"   -> Push(o.h, o.ev, o.end)
    [] o.e = "close"  -> Close(o.ans)
    [] o.e = "setsid" -> sid' = o.v /\ UNCHANGED <<ver, cfg, streams, authok, tokens>> /\ Answer("ok", <<>>, <<>>, <<>>)
    [] o.e = "setver" -> ver' = o.v /\ UNCHANGED <<sid, cfg, streams, authok, tokens>> /\ Answer("ok", <<>>, <<>>, <<>>)
    [] o.e = "auth"   -> authok' = o.v /\ Same /\ UNCHANGED <<cfg, streams, tokens>> /\ Answer("ok", <<>>, <<>>, <<>>)
PreApply(o) == FALSE
PostApply(o) == FALSE
ResMatches(r) == r = res'

(******************************* properties *******************************)
\* the session is over once it has been closed, and is only ended when there is one
Deletes == [][(res'.k # "none" /\ res'.req # <<>> /\ res'.req[1].method = "DELETE") => sid # "" /\ sid' = ""]_vars
\* every request carries the session and version there are
Carries == [][\A n \in DOMAIN res'.req : res'.req[n].sid = sid /\ res'.req[n].ver = ver]_vars
\* a failed operation delivers nothing
FailsClean == res.k = "err" => res.got = <<>> /\ res.ids = <<>>
OneListener == Cardinality({n \in DOMAIN streams : streams[n].get /\ streams[n].live}) <= 1
=============================================================================
