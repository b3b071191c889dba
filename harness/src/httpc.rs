//! The HTTP client transport against an arbitrary server (P26).
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use pmcp::shared::streamable_http::{AuthProvider, SendOptions, StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Debug, Default)]
struct Tokens {
    n: AtomicI64,
    broken: AtomicBool,
}
#[async_trait]
impl AuthProvider for Tokens {
    async fn get_access_token(&self) -> pmcp::Result<String> {
        let n = self.n.fetch_add(1, SeqCst) + 1;
        if self.broken.load(SeqCst) {
            return Err(pmcp::Error::internal("no token"));
        }
        Ok(format!("t{n}"))
    }
}
/// JSON-RPC text of a message.
pub fn wire(m: &Value) -> String {
    match s(m, "k") {
        "req" => json!({"jsonrpc":"2.0","id":m["n"],"method":"tools/call","params":{"name":m["t"],"arguments":{}}}).to_string(),
        "note" => json!({"jsonrpc":"2.0","method":"notifications/progress","params":{"progressToken":m["n"],"progress":1.0,"message":m["t"]}}).to_string(),
        "resp" => json!({"jsonrpc":"2.0","id":m["n"],"result":{"t":m["t"]}}).to_string(),
        "fail" => json!({"jsonrpc":"2.0","id":m["n"],"error":{"code":-1,"message":m["t"]}}).to_string(),
        _ => "{\"hello\":".into(),
    }
}
pub fn unwire(body: &[u8]) -> Value {
    let Ok(v) = serde_json::from_slice::<Value>(body) else { return json!({"k":"odd","n":0,"t":String::from_utf8_lossy(body)}) };
    let x = if v["jsonrpc"] != "2.0" {
        None
    } else if v["method"] == "tools/call" {
        Some(("req", v["id"].clone(), v["params"]["name"].clone()))
    } else if v["method"] == "notifications/progress" && v.get("id").is_none() {
        Some(("note", v["params"]["progressToken"].clone(), v["params"]["message"].clone()))
    } else if v.get("result").is_some() {
        Some(("resp", v["id"].clone(), v["result"]["t"].clone()))
    } else if v.get("error").is_some() {
        Some(("fail", v["id"].clone(), v["error"]["message"].clone()))
    } else {
        None
    };
    match x {
        Some((k, n, t)) => json!({"k":k,"n":n,"t":t}),
        None => json!({"k":"odd","n":0,"t":v.to_string()}),
    }
}
pub fn message(m: &Value) -> TransportMessage {
    let (n, t) = (i(m, "n"), s(m, "t").to_string());
    match s(m, "k") {
        "req" => TransportMessage::Request {
            id: RequestId::Number(n),
            request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":t,"arguments":{}}})).unwrap())),
        },
        "note" => TransportMessage::Notification(Notification::Progress(ProgressNotification { progress_token: ProgressToken::Number(n), progress: 1.0, message: Some(t) })),
        "resp" => TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(n), json!({"t":t}))),
        _ => TransportMessage::Response(JSONRPCResponse::error(RequestId::Number(n), pmcp::types::jsonrpc::JSONRPCError { code: -1, message: t, data: None })),
    }
}
pub fn unmessage(m: &TransportMessage) -> Value {
    let num = |id: &RequestId| match id {
        RequestId::Number(n) => json!(n),
        RequestId::String(s) => json!(s),
    };
    match m {
        TransportMessage::Request { id, request: Request::Client(c) } => match &**c {
            ClientRequest::CallTool(p) => json!({"k":"req","n":num(id),"t":p.name}),
            c => json!({"k":"odd","n":num(id),"t":format!("{c:?}")}),
        },
        TransportMessage::Response(r) => match &r.payload {
            ResponsePayload::Result(v) => json!({"k":"resp","n":num(&r.id),"t":v["t"]}),
            ResponsePayload::Error(e) => json!({"k":"fail","n":num(&r.id),"t":e.message}),
        },
        TransportMessage::Notification(Notification::Progress(p)) | TransportMessage::Notification(Notification::Server(ServerNotification::Progress(p))) => {
            let n = match &p.progress_token {
                ProgressToken::Number(n) => json!(n),
                ProgressToken::String(s) => json!(s),
            };
            json!({"k":"note","n":n,"t":p.message.clone().unwrap_or_default()})
        }
        m => json!({"k":"odd","n":0,"t":format!("{m:?}")}),
    }
}

/// What the server does next, and what it saw.
#[derive(Default)]
struct Srv {
    answers: Mutex<Vec<Value>>,
    seen: Mutex<Vec<Value>>,
    open: Mutex<Vec<Option<TcpStream>>>,
    dropped: AtomicI64,
}
async fn chunk(c: &mut TcpStream, bytes: &[u8]) -> std::io::Result<()> {
    let mut out = format!("{:x}\r\n", bytes.len()).into_bytes();
    out.extend_from_slice(bytes);
    out.extend_from_slice(b"\r\n");
    c.write_all(&out).await
}
/// Writes the events of a stream in pieces cut inside characters and line ends.
async fn events(c: &mut TcpStream, ev: &Value, end: &str, step: usize) -> std::io::Result<bool> {
    let mut text = String::new();
    for e in ev.as_array().unwrap() {
        if s(e, "id") != "" {
            text += &format!("id: {}\n", s(e, "id"));
        }
        if s(e, "ty") != "" {
            text += &format!("event: {}\n", s(e, "ty"));
        }
        text += &format!("data: {}\n\n", wire(&e["m"]));
    }
    let mut q = text.into_bytes();
    if end == "cut" {
        q.pop();
    }
    for p in q.chunks(step.max(1)) {
        chunk(c, p).await?;
        if step < 200 {
            settle_n(3).await;
        }
    }
    match end {
        "open" => return Ok(true),
        "cut" => {} // the connection just ends
        _ => c.write_all(b"0\r\n\r\n").await?,
    }
    Ok(false)
}
async fn serve(mut c: TcpStream, srv: Arc<Srv>) {
    c.set_nodelay(true).unwrap();
    let mut buf = [0; 4096];
    let mut q = Vec::new();
    let head_end = loop {
        if let Some(k) = q.windows(4).position(|w| w == b"\r\n\r\n") {
            break k;
        }
        match c.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => q.extend_from_slice(&buf[..n]),
        }
    };
    let head = String::from_utf8_lossy(&q[..head_end]).to_string();
    let h = |name: &str| -> String {
        let all: Vec<String> = head
            .lines()
            .skip(1)
            .filter_map(|l| l.split_once(": ").filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.to_string()))
            .collect();
        all.join(" & ")
    };
    let len: usize = h("content-length").parse().unwrap_or(0);
    while q.len() < head_end + 4 + len {
        match c.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => q.extend_from_slice(&buf[..n]),
        }
    }
    let body = &q[head_end + 4..];
    let method = head.split(' ').next().unwrap().to_string();
    let msg = if body.is_empty() { json!({"k":"","n":0,"t":""}) } else { unwire(body) };
    srv.seen.lock().unwrap().push(json!({"method":method,"sid":h("mcp-session-id"),"ver":h("mcp-protocol-version"),"accept":h("accept"),
        "ct":h("content-type"),"msg":msg,"last":h("last-event-id"),"auth":h("authorization").trim_start_matches("Bearer "),"xtra":h("x-extra")}));
    let Some(a) = srv.answers.lock().unwrap().pop() else { return };
    let st = i(&a, "st");
    if st == 0 {
        return;
    }
    let mut out = format!("HTTP/1.1 {st} X\r\nConnection: close\r\n");
    if s(&a, "sid") != "" {
        out += &format!("Mcp-Session-Id: {}\r\n", s(&a, "sid"));
    }
    if s(&a, "ver") != "" {
        out += &format!("Mcp-Protocol-Version: {}\r\n", s(&a, "ver"));
    }
    let ct = match s(&a, "ct") {
        "json" => Some(if st % 2 == 0 && i(&a, "step") % 2 == 0 { "application/json" } else { "application/json; charset=utf-8" }),
        "sse" => Some("text/event-stream"),
        "text" => Some("text/plain"),
        _ => None,
    };
    if let Some(ct) = ct {
        out += &format!("Content-Type: {ct}\r\n");
    }
    let step = i(&a, "step") as usize;
    if s(&a, "ct") == "sse" {
        out += "Transfer-Encoding: chunked\r\n\r\n";
        let _ = c.write_all(out.as_bytes()).await;
        let good = (200..300).contains(&st);
        let mine = good.then(|| {
            let mut o = srv.open.lock().unwrap();
            o.push(None);
            o.len() - 1
        });
        if events(&mut c, &a["ev"], s(&a, "end"), step).await.unwrap_or(false) {
            if let Some(k) = mine {
                srv.open.lock().unwrap()[k] = Some(c);
            }
        }
        return;
    }
    let ms: Vec<String> = a["ev"].as_array().unwrap().iter().map(|e| wire(&e["m"])).collect();
    let body = if b(&a, "batch") {
        format!("[{}]", ms.join(","))
    } else {
        ms.first().cloned().unwrap_or_default()
    };
    if st != 204 {
        out += &format!("Content-Length: {}\r\n", body.len());
    }
    out += "\r\n";
    out += &body;
    let _ = c.write_all(out.as_bytes()).await;
    let _ = c.flush().await;
}

struct Sut {
    t: RefCell<StreamableHttpTransport>,
    srv: Arc<Srv>,
    tokens: Arc<Tokens>,
    ids: Arc<Mutex<Vec<Value>>>,
    ms: u64,
    step: i64,
}
impl Sut {
    async fn new(c: &Value, slow: bool, step: i64) -> Rc<Self> {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://{}/mcp", l.local_addr().unwrap());
        let srv: Arc<Srv> = Default::default();
        let tokens: Arc<Tokens> = Default::default();
        let ids: Arc<Mutex<Vec<Value>>> = Default::default();
        let i2 = ids.clone();
        let t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
            url: url.parse().unwrap(),
            extra_headers: if b(c, "xtra") { vec![("X-Extra".into(), "x".into())] } else { vec![] },
            auth_provider: b(c, "auth").then(|| tokens.clone() as Arc<dyn AuthProvider>),
            session_id: Some(s(c, "sid").to_string()).filter(|x| !x.is_empty()),
            enable_json_response: false,
            on_resumption_token: Some(Arc::new(move |id| i2.lock().unwrap().push(json!(id)))),
        });
        let s2 = srv.clone();
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                tokio::spawn(serve(c, s2.clone()));
            }
        });
        Rc::new(Sut { t: RefCell::new(t), srv, tokens, ids, ms: if slow { 80 } else { 3 }, step })
    }
    fn answer(&self, op: &Value) {
        let mut a = op["ans"].clone();
        a["step"] = json!(self.step);
        *self.srv.answers.lock().unwrap() = vec![a];
    }
    /// What should arrive at most (only decides how long to wait for it).
    fn hint(a: &Value) -> (usize, usize) {
        if a.get("st").is_some_and(|st| *st != 200) || a.get("ct").is_some_and(|ct| ct != "sse") {
            return (0, 0);
        }
        let mut l = &a["ev"].as_array().unwrap()[..];
        if a["end"] == "cut" {
            l = &l[..l.len().saturating_sub(1)];
        }
        let n = l.iter().filter(|e| e["m"]["k"] != "junk" && (e["ty"] == "" || e["ty"] == "message")).count();
        (n, l.iter().position(|e| e["id"] != "").map_or(0, |k| l.len() - k))
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let mut t = self.t.borrow_mut();
        let (mut r, mut hint) = (Ok(()), (0, 0));
        match s(&op, "e") {
            "send" => {
                self.answer(&op);
                r = t.send(message(&op["m"])).await;
                hint = Self::hint(&op["ans"]);
            }
            "listen" => {
                self.answer(&op);
                let tok = s(&op, "tok").to_string();
                r = if tok.is_empty() {
                    t.start_sse(None).await
                } else if self.step % 2 == 0 {
                    t.start_sse(Some(tok)).await
                } else {
                    // resuming is another way to ask for it
                    let m = message(&json!({"k":"note","n":1,"t":"x"}));
                    t.send_with_options(m, SendOptions { related_request_id: None, resumption_token: Some(tok) }).await
                };
                hint = Self::hint(&op["ans"]);
            }
            "push" => {
                let k = i(&op, "h") as usize - 1;
                let c = self.srv.open.lock().unwrap().get_mut(k).and_then(|c| c.take());
                if let Some(mut c) = c {
                    settle_n(100).await;
                    if !matches!(c.try_read(&mut [0; 8]), Ok(0)) {
                        hint = Self::hint(&op);
                    }
                    if events(&mut c, &op["ev"], s(&op, "end"), self.step as usize).await.unwrap_or(false) {
                        self.srv.open.lock().unwrap()[k] = Some(c);
                    }
                }
            }
            "close" => {
                self.answer(&op);
                r = t.close().await;
            }
            "setsid" => t.set_session_id(Some(s(&op, "v").to_string()).filter(|x| !x.is_empty())),
            "setver" => t.set_protocol_version(Some(s(&op, "v").to_string()).filter(|x| !x.is_empty())),
            "auth" => self.tokens.broken.store(!b(&op, "v"), SeqCst),
            e => panic!("op {e}"),
        }
        // what has arrived
        let mut got = Vec::new();
        let mut tries = 0;
        loop {
            let more = got.len() < hint.0 || self.ids.lock().unwrap().len() < hint.1;
            let wait = if more { self.ms * 4 } else { 1 };
            match tokio::time::timeout(Duration::from_millis(wait), t.receive()).await {
                Ok(Ok(m)) => got.push(unmessage(&m)),
                Ok(Err(_)) => break,
                Err(_) if more && tries < 5 => tries += 1,
                Err(_) => break,
            }
        }
        let req: Vec<Value> = self.srv.seen.lock().unwrap().drain(..).collect();
        let ids: Vec<Value> = self.ids.lock().unwrap().drain(..).collect();
        json!({"k": if r.is_ok() {"ok"} else {"err"}, "req":req, "got":got, "ids":ids,
               "sid":t.session_id().unwrap_or_default(),"ver":t.protocol_version().unwrap_or_default(),"last":t.last_event_id().unwrap_or_default()})
    }
}
fn one<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
fn msg(r: &mut Rng, junk: u64) -> Value {
    if r.chance(junk, 10) {
        return json!({"k":"junk","n":0,"t":""});
    }
    json!({"k":one(r, &["req","note","resp","resp","fail"]),"n":r.range(1, 99),"t":one(r, &["x","é€😀","a \"b\"","\u{a0}\\n","[1]"])})
}
fn evs(r: &mut Rng, sse: bool) -> Value {
    let n = if r.chance(1, 10) { 0 } else { 1 + r.below(4) };
    (0..n)
        .map(|_| {
            let id = if sse && r.chance(1, 3) { r.range(1, 50).to_string() } else { String::new() };
            json!({"id":id,"ty": if sse { one(r, &["","","message","other"]) } else { "" },"m":msg(r, if sse { 1 } else { 0 })})
        })
        .collect()
}
fn answer(r: &mut Rng, get: bool) -> Value {
    let h = |r: &mut Rng, v: &[&str]| if r.chance(1, 3) { one(r, v).to_string() } else { String::new() };
    let (sid, ver) = (h(r, &["s1", "s2", "s3"]), h(r, &["2025-03-26", "2025-06-18"]));
    let mk = |r: &mut Rng, st: i64, ct: &str, ev: Value| {
        let end = if ct == "sse" { one(r, &["end", "open", "open", "cut"]) } else { "end" };
        let batch = ct == "json" && ev.as_array().unwrap().len() != 1 || r.chance(1, 5);
        let sid = if get && st != 200 { "" } else { &sid };
        let ver = if get && st != 200 { "" } else { &ver };
        json!({"st":st,"sid":sid,"ver":ver,"ct":ct,"ev":ev,"end":end,"batch":batch})
    };
    if get {
        return match r.below(6) {
            0 => mk(r, 405, "none", json!([])),
            1 => mk(r, 503, "none", json!([])),
            _ => {
                let e = evs(r, true);
                mk(r, 200, "sse", e)
            }
        };
    }
    match r.below(12) {
        0 | 1 => mk(r, 202, "none", json!([])),
        2 => {
            let st = *r.pick(&[400, 401, 404, 500, 302]);
            mk(r, st, "none", json!([]))
        }
        3 => json!({"st":0,"sid":"","ver":"","ct":"none","ev":[],"end":"end","batch":false}),
        4 => {
            let ev = json!([{"id":"","ty":"","m":{"k":"junk","n":0,"t":""}}]);
            mk(r, 200, "json", ev)
        }
        5 => {
            let e = evs(r, false);
            mk(r, 200, "text", e)
        }
        6 | 7 | 8 => {
            let e = evs(r, false);
            mk(r, 200, "json", e)
        }
        _ => {
            let e = evs(r, true);
            mk(r, 200, "sse", e)
        }
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scripts: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n)
            .map(|_| {
                let auth = r.chance(1, 3);
                let mut sc = vec![json!({"e":"init","auth":auth,"xtra":r.chance(1, 3),"sid":one(&mut r, &["","","s0"])})];
                let mut open: i64 = 0;
                let mut authok = true;
                for _ in 0..4 + r.below(14) {
                    let op = match r.below(20) {
                        0..=8 => {
                            let m = msg(&mut r, 0);
                            json!({"e":"send","m":m,"ans":answer(&mut r, false)})
                        }
                        9..=11 => json!({"e":"listen","tok":one(&mut r, &["","","e7"]),"ans":answer(&mut r, true)}),
                        12..=14 if open > 0 => json!({"e":"push","h":r.range(1, open),"ev":evs(&mut r, true),"end":one(&mut r, &["open","open","end","cut"])}),
                        15 => json!({"e":"close","ans":{"st":*r.pick(&[200, 204, 405, 404, 0]),"sid":"","ver":"","ct":"none","ev":[],"end":"end","batch":false}}),
                        16 => json!({"e":"setsid","v":one(&mut r, &["","u1"])}),
                        17 => json!({"e":"setver","v":one(&mut r, &["","2024-11-05"])}),
                        18 if auth => {
                            authok = !authok;
                            json!({"e":"auth","v":authok})
                        }
                        _ => {
                            let m = msg(&mut r, 0);
                            json!({"e":"send","m":m,"ans":answer(&mut r, false)})
                        }
                    };
                    if (op["e"] == "send" || op["e"] == "listen") && op["ans"]["ct"] == "sse" && op["ans"]["st"] == 200 && (authok || !auth) {
                        open += 1;
                    }
                    sc.push(op);
                }
                sc
            })
            .collect(),
        f => panic!("family {f}"),
    };
    for sc in scripts {
        let step = [1000, 7, 64, 333][json!(sc).to_string().len() % 4];
        plain_rt().block_on(async {
            let x = Sut::new(&sc[0], slow, step).await;
            play_seq_n(o, 20_000_000, mk_exec!(x), sc[0].clone(), sc[1..].to_vec(), false).await
        });
    }
}
