//! The streamable HTTP server over a loopback socket, driven by a raw HTTP/1.1 client.
use crate::core::*;
use crate::server::show_id;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::streamable_http_server::*;
use pmcp::server::ToolHandler;
use pmcp::{Error, Result, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

// ---------------------------------------------------------------- raw client
pub struct Reply {
    pub st: i64,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn header(&self, n: &str) -> Option<String> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone())
    }
}
/// Bytes of a chunked body as they arrive.
#[derive(Default)]
pub struct Chunked {
    raw: Vec<u8>,
    pub out: Vec<u8>,
    pub end: bool,
}
impl Chunked {
    pub fn feed(&mut self, b: &[u8]) {
        self.raw.extend_from_slice(b);
        while !self.end {
            let Some(p) = self.raw.windows(2).position(|w| w == b"\r\n") else { return };
            let n = usize::from_str_radix(std::str::from_utf8(&self.raw[..p]).unwrap().trim(), 16).unwrap();
            if self.raw.len() < p + 2 + n + 2 {
                return;
            }
            self.out.extend_from_slice(&self.raw[p + 2..p + 2 + n]);
            self.raw.drain(..p + 2 + n + 2);
            self.end = n == 0;
        }
    }
}
pub struct Conn {
    pub sock: TcpStream,
    buf: Vec<u8>,
}
impl Conn {
    pub async fn open(port: u16) -> std::io::Result<Conn> {
        let sock = TcpStream::connect(("127.0.0.1", port)).await?;
        sock.set_nodelay(true)?;
        // closing resets the connection: no sockets are left waiting
        #[allow(deprecated)]
        sock.set_linger(Some(Duration::ZERO))?;
        Ok(Conn { sock, buf: vec![] })
    }
    pub async fn write(&mut self, method: &str, path: &str, hs: &[(&str, String)], body: &[u8]) -> std::io::Result<()> {
        let mut m = format!("{method} {path} HTTP/1.1\r\nhost: localhost\r\ncontent-length: {}\r\n", body.len()).into_bytes();
        for (k, v) in hs {
            m.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
        }
        m.extend_from_slice(b"\r\n");
        m.extend_from_slice(body);
        self.sock.write_all(&m).await
    }
    async fn more(&mut self) -> std::io::Result<()> {
        let mut t = [0u8; 4096];
        let n = self.sock.read(&mut t).await?;
        if n == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        self.buf.extend_from_slice(&t[..n]);
        Ok(())
    }
    pub async fn head(&mut self) -> std::io::Result<Reply> {
        let p = loop {
            if let Some(p) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p;
            }
            self.more().await?;
        };
        let h = String::from_utf8_lossy(&self.buf[..p]).to_string();
        self.buf.drain(..p + 4);
        let mut l = h.split("\r\n");
        let st = l.next().unwrap().split(' ').nth(1).unwrap().parse().unwrap();
        let headers = l.filter_map(|x| x.split_once(": ")).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        Ok(Reply { st, headers, body: vec![] })
    }
    pub async fn reply(&mut self) -> std::io::Result<Reply> {
        let mut r = self.head().await?;
        if r.header("transfer-encoding").is_some() {
            let mut c = Chunked::default();
            loop {
                let b = std::mem::take(&mut self.buf);
                c.feed(&b);
                if c.end {
                    break;
                }
                self.more().await?;
            }
            r.body = c.out;
        } else {
            let n = r.header("content-length").and_then(|x| x.parse().ok()).unwrap_or(0usize);
            while self.buf.len() < n {
                self.more().await?;
            }
            r.body = self.buf.drain(..n).collect();
        }
        Ok(r)
    }
}
/// The events of an event-stream text: (id, data).
pub fn sse_events(t: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for blk in t.split("\n\n") {
        let (mut id, mut data) = ("none".to_string(), None::<String>);
        for l in blk.lines() {
            if let Some(x) = l.strip_prefix("id:") {
                id = x.trim().into();
            } else if let Some(x) = l.strip_prefix("data:") {
                let x = x.strip_prefix(' ').unwrap_or(x);
                data = Some(data.map_or(x.to_string(), |d| d + "\n" + x));
            }
        }
        if let Some(d) = data {
            out.push((id, d));
        }
    }
    out
}

// ---------------------------------------------------------------- the server under test
type Log = Arc<Mutex<Vec<Value>>>;
struct Tool {
    fail: bool,
    log: Log,
}
#[async_trait]
impl ToolHandler for Tool {
    async fn handle(&self, a: Value, _x: RequestHandlerExtra) -> Result<Value> {
        self.log.lock().unwrap().push(a["x"].clone());
        if self.fail {
            return Err(Error::internal("failed"));
        }
        Ok(a["x"].clone())
    }
}
struct Stream {
    conn: Conn,
    ch: Chunked,
    text: String,
}
pub struct Sut {
    port: u16,
    task: tokio::task::JoinHandle<()>,
    conn: Option<Conn>,
    log: Log,
    cb: Log,
    sids: Vec<String>, // raw session ids by order of appearance
    eids: Vec<String>,
    streams: HashMap<String, Stream>,
    slow: bool,
}
impl Drop for Sut {
    fn drop(&mut self) {
        self.task.abort();
    }
}
fn name(v: &mut Vec<String>, p: &str, raw: &str) -> String {
    let k = v.iter().position(|x| x == raw).unwrap_or_else(|| {
        v.push(raw.to_string());
        v.len() - 1
    });
    format!("{p}{}", k + 1)
}
fn raw(v: &[String], p: &str, n: &str) -> String {
    n.strip_prefix(p).and_then(|k| k.parse::<usize>().ok()).and_then(|k| v.get(k.wrapping_sub(1))).cloned().unwrap_or_else(|| format!("{n}-unissued"))
}
/// An answer as the specification shows it.
fn ans(v: &Value) -> Value {
    let id = show_id(&v["id"]);
    if v["jsonrpc"] != "2.0" {
        return json!({"id":id,"ok":false,"v":"not-jsonrpc"});
    }
    match (v.get("result"), v.get("error")) {
        (Some(r), None) => {
            let x = if let Some(p) = r.get("protocolVersion") {
                p.as_str().unwrap_or("?").to_string()
            } else if let Some(c) = r.get("content") {
                c[0]["text"].as_str().map(|t| serde_json::from_str::<String>(t).unwrap_or(t.to_string())).unwrap_or("?".into())
            } else {
                r.as_object().map_or(r.to_string(), |o| if o.is_empty() { "".into() } else { r.to_string() })
            };
            json!({"id":id,"ok":true,"v":x})
        }
        (None, Some(e)) if e["code"].is_i64() && e["message"].is_string() => json!({"id":id,"ok":false,"v":""}),
        _ => json!({"id":id,"ok":false,"v":"odd"}),
    }
}
impl Sut {
    pub async fn new(c: &Value, slow: bool) -> Sut {
        let log: Log = Default::default();
        let cb: Log = Default::default();
        let server = Server::builder()
            .name("s")
            .version("1")
            .tool("echo", Tool { fail: false, log: log.clone() })
            .tool("fail", Tool { fail: true, log: log.clone() })
            .build()
            .unwrap();
        let (c1, c2) = (cb.clone(), cb.clone());
        let plain = c.get("default").is_some();
        let server = Arc::new(tokio::sync::Mutex::new(server));
        let addr = "127.0.0.1:0".parse().unwrap();
        let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut conf = StreamableHttpServerConfig::default();
        if !b(c, "stateful") {
            conf.session_id_generator = None;
        } else if !plain {
            conf.session_id_generator =
                Some(Box::new(move || format!("sess-{}", n.fetch_add(1, std::sync::atomic::Ordering::SeqCst))));
        }
        conf.enable_json_response = b(c, "json");
        if !b(c, "store") {
            conf.event_store = None;
        }
        conf.on_session_initialized = Some(Box::new(move |s| c1.lock().unwrap().push(json!(["open", s]))));
        conf.on_session_closed = Some(Box::new(move |s| c2.lock().unwrap().push(json!(["close", s]))));
        let (addr, task) = StreamableHttpServer::with_config(addr, server, conf).start().await.unwrap();
        Sut { port: addr.port(), task, conn: None, log, cb, sids: vec![], eids: vec![], streams: HashMap::new(), slow }
    }
    async fn quiet(&self) {
        settle_n(30).await;
        if self.slow {
            tokio::time::sleep(Duration::from_millis(60)).await;
            settle_n(30).await;
        }
    }
    fn callbacks(&mut self) -> Vec<String> {
        let l: Vec<Value> = self.cb.lock().unwrap().drain(..).collect();
        l.iter()
            .map(|x| {
                let id = x[1].as_str().unwrap();
                // an id never seen before gets its name here; an unissued one keeps its own
                let n = match id.strip_suffix("-unissued") {
                    Some(n) => n.to_string(),
                    None => name(&mut self.sids, "s", id),
                };
                format!("{} {}", x[0].as_str().unwrap(), n)
            })
            .collect()
    }
    fn sid_name(&mut self, r: &Reply) -> String {
        match r.header("mcp-session-id") {
            None => "none".into(),
            Some(x) => match x.strip_suffix("-unissued") {
                Some(n) => n.to_string(),
                None => name(&mut self.sids, "s", &x),
            },
        }
    }
    async fn send(&mut self, method: &str, hs: &[(&str, String)], body: &[u8]) -> Option<Reply> {
        for _ in 0..2 {
            if self.conn.is_none() {
                self.conn = Some(Conn::open(self.port).await.unwrap());
            }
            let c = self.conn.as_mut().unwrap();
            let f = async {
                c.write(method, "/", hs, body).await?;
                c.reply().await
            };
            match tokio::time::timeout(Duration::from_secs(10), f).await {
                Ok(Ok(r)) => return Some(r),
                Ok(Err(_)) => self.conn = None, // an idle connection that was closed
                Err(_) => break,
            }
        }
        self.conn = None;
        None
    }
    pub async fn exec(&mut self, op: &Value) -> Value {
        let mut hs: Vec<(&str, String)> = vec![];
        for (f, h) in [("ct", "content-type"), ("acc", "accept"), ("pv", "mcp-protocol-version")] {
            if let Some(x) = op.get(f).and_then(|x| x.as_str()).filter(|x| *x != "none") {
                hs.push((h, x.to_string()));
            }
        }
        let sid = s(op, "sid").to_string();
        if sid != "none" {
            hs.push(("mcp-session-id", raw(&self.sids, "s", &sid)));
        }
        match s(op, "e") {
            "post" => {
                let body = self.body(op);
                let Some(r) = self.send("POST", &hs, body.as_bytes()).await else { return kind("dead") };
                self.quiet_short().await;
                let cb = self.callbacks();
                let ct = r.header("content-type").unwrap_or_default();
                let (mut form, mut eid, mut a) = ("none", "none".to_string(), json!({"id":"none","ok":false,"v":""}));
                if r.st == 200 {
                    if ct.starts_with("text/event-stream") {
                        form = "sse";
                        let evs = sse_events(&String::from_utf8_lossy(&r.body));
                        if evs.len() == 1 {
                            eid = if evs[0].0 == "none" { "none".into() } else { name(&mut self.eids, "e", &evs[0].0) };
                            a = ans(&serde_json::from_str(&evs[0].1).unwrap_or(Value::Null));
                        } else {
                            form = "odd";
                        }
                    } else {
                        form = if ct.starts_with("application/json") { "json" } else { "odd" };
                        a = ans(&serde_json::from_slice(&r.body).unwrap_or(Value::Null));
                    }
                } else if !r.body.is_empty() {
                    form = "body";
                }
                let sid = self.sid_name(&r);
                let h: Vec<Value> = self.log.lock().unwrap().drain(..).collect();
                json!({"st":r.st,"sid":sid,"pv":r.header("mcp-protocol-version").unwrap_or("none".into()),"form":form,"eid":eid,"ans":a,"h":h,"cb":cb})
            }
            "get" => {
                if s(op, "le") != "none" {
                    hs.push(("last-event-id", raw(&self.eids, "e", s(op, "le"))));
                }
                let mut c = Conn::open(self.port).await.unwrap();
                let f = async {
                    c.write("GET", "/", &hs, b"").await?;
                    c.head().await
                };
                let Ok(Ok(r)) = tokio::time::timeout(Duration::from_secs(10), f).await else { return kind("dead") };
                self.quiet_short().await;
                let cb = self.callbacks();
                let sid = if r.st == 200 { self.sid_name(&r) } else { "none".into() };
                if r.st == 200 {
                    let b = std::mem::take(&mut c.buf);
                    let mut ch = Chunked::default();
                    ch.feed(&b);
                    self.streams.insert(sid.clone(), Stream { conn: c, ch, text: String::new() });
                }
                json!({"st":r.st,"sid":sid,"cb":cb})
            }
            "read" => {
                self.quiet().await;
                let Some(mut st) = self.streams.remove(&sid) else { return json!({"evs":[],"end":true}) };
                let mut empty = 0;
                loop {
                    let mut t = [0u8; 4096];
                    match st.conn.sock.try_read(&mut t) {
                        Ok(0) => {
                            st.ch.end = true;
                            break;
                        }
                        Ok(n) => st.ch.feed(&t[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                            empty += 1;
                            if empty > 2 {
                                break;
                            }
                            settle_n(20).await;
                        }
                        Err(_) => {
                            st.ch.end = true;
                            break;
                        }
                    }
                }
                st.text += &String::from_utf8_lossy(&std::mem::take(&mut st.ch.out));
                let cut = st.text.rfind("\n\n").map_or(0, |p| p + 2);
                let t: String = st.text.drain(..cut).collect();
                let evs: Vec<Value> = sse_events(&t)
                    .iter()
                    .map(|(id, d)| {
                        let id = if id == "none" { "none".into() } else { name(&mut self.eids, "e", id) };
                        json!({"eid":id,"ans":ans(&serde_json::from_str(d).unwrap_or(Value::Null))})
                    })
                    .collect();
                let end = st.ch.end;
                if !end {
                    self.streams.insert(sid, st);
                }
                json!({"evs":evs,"end":end})
            }
            "hangup" => {
                self.streams.remove(&sid);
                self.quiet().await;
                settle_n(60).await;
                kind("ok")
            }
            "del" => {
                let Some(r) = self.send("DELETE", &hs, b"").await else { return kind("dead") };
                let cb = self.callbacks();
                json!({"st":r.st,"sid":"none","cb":cb})
            }
            x => panic!("op {x}"),
        }
    }
    async fn quiet_short(&self) {
        settle_n(5).await;
    }
    fn body(&self, op: &Value) -> String {
        let id = s(op, "id").split_once(':').unwrap();
        let id = if id.0 == "n" { json!(id.1.parse::<i64>().unwrap()) } else { json!(id.1) };
        let legacy = s(op, "form") == "legacy";
        let rq = |m: &str, p: Value| {
            if legacy {
                json!({"id":id,"request":{"method":m,"params":p}}).to_string()
            } else {
                json!({"jsonrpc":"2.0","id":id,"method":m,"params":p}).to_string()
            }
        };
        let x = s(op, "arg");
        match s(op, "body") {
            "init" => rq("initialize", json!({"protocolVersion": if x.starts_with("20") { x } else { "2025-06-18" },"capabilities":{},"clientInfo":{"name":"c","version":"1"}})),
            "call" => rq("tools/call", json!({"name":"echo","arguments":{"x":x}})),
            "unknown" => rq("tools/call", json!({"name":"nothing","arguments":{"x":x}})),
            "fail" => rq("tools/call", json!({"name":"fail","arguments":{"x":x}})),
            "ping" if legacy => json!({"id":id,"request":{"method":"ping"}}).to_string(),
            "ping" => json!({"jsonrpc":"2.0","id":id,"method":"ping"}).to_string(),
            "note" => json!({"jsonrpc":"2.0","method":"notifications/initialized"}).to_string(),
            "resp" => json!({"jsonrpc":"2.0","id":id,"result":{}}).to_string(),
            "junk" => match x {
                "1" => "".into(),
                "2" => "{}".into(),
                "3" => "[1,2".into(),
                "4" => json!({"jsonrpc":"2.0","id":id,"method":"no/such"}).to_string(),
                "5" => "null".into(),
                _ => "{\"jsonrpc\":\"2.0\",".into(),
            },
            b => panic!("body {b}"),
        }
    }
}

async fn play(o: &mut Opts, c: Value, ops: Vec<Value>, slow: bool) {
    let mut sut = Sut::new(&c, slow).await;
    let mut tr = vec![c];
    for op in ops {
        let r = sut.exec(&op).await;
        tr.push(ev(&op, r));
    }
    o.out.put(tr);
}
/// Random conversations; the ids used are those a client would have seen, or made up.
fn gen(r: &mut Rng, c: &Value, fam: &str, live: &mut Vec<u32>) -> Value {
    let nsid = live.len() as i64;
    let sid = match r.below(12) {
        0 => "none".to_string(),
        1 => "zz".into(),
        _ => format!("s{}", r.range(1, nsid.clamp(1, 4))),
    };
    let id = if r.chance(1, 2) { format!("n:{}", r.range(-3, 90)) } else { format!("s:{}", r.pick(&["x", "é", "", "1", "very long identifier"])) };
    let arg = *r.pick(&["x", "yé", "", "a b\n", "\"q\"", "data: z", "0"]);
    let good = |r: &mut Rng, bad: u64, ok: &[&'static str], no: &[&'static str]| if r.chance(bad, 100) { *r.pick(no) } else { *r.pick(ok) };
    let (bad, kinds): (u64, [u64; 5]) = match fam {
        "randpost" => (12, [80, 6, 2, 6, 6]),
        "randstream" => (0, [45, 20, 20, 12, 3]),
        _ => (1, [60, 12, 4, 12, 12]),
    };
    let mut k = r.below(100) as u64;
    let mut which = 0;
    for (n, w) in kinds.iter().enumerate() {
        if k < *w {
            which = n;
            break;
        }
        k -= w;
    }
    match which {
        0 => {
            let body = *r.pick(&["init", "call", "call", "call", "call", "ping", "unknown", "fail", "note", "resp", "junk"]);
            let body = if nsid == 0 && r.chance(2, 3) { "init" } else { body };
            let sid = if body == "init" && r.chance(4, 5) { "none".into() } else { sid };
            if body == "init" && sid == "none" && b(c, "stateful") {
                live.push(0);
            }
            let pv = if body == "init" { *r.pick(&["none", "none", "2024-11-05", "2025-03-26", "2025-06-18", "1.0"]) } else { good(r, bad * 2, &["none", "none", "2024-11-05"], &["2025-03-26", "2025-06-18", "2024-10-07", "1.0", "", "2024-11-5"]) };
            json!({"e":"post","sid":sid,"pv":pv,
                "ct":good(r, bad, &["application/json","application/json; charset=utf-8"], &["none","text/plain","application/xml","json"]),
                "acc":good(r, bad, &["application/json, text/event-stream","text/event-stream, application/json","application/json","text/event-stream"], &["none","text/html","image/png"]),
                "body":body,"id":id,"arg": if body == "junk" { *r.pick(&["1","2","3","4","5","6"]) } else if body == "init" { *r.pick(&["x","2024-11-05","2025-03-26","2025-06-18","2024-10-07","2099-01-01"]) } else { arg },
                "form": if r.chance(1, 5) && !matches!(body, "note" | "resp" | "junk") { "legacy" } else { "rpc" }})
        }
        1 => {
            let sid = if sid == "none" && r.chance(2, 3) { "s1".into() } else { sid };
            if sid == "none" && b(c, "stateful") {
                live.push(0);
            }
            json!({"e":"get","sid":sid,
                "acc":good(r, bad, &["text/event-stream","application/json, text/event-stream","text/event-stream, */*"], &["none","application/json","text/plain"]),
                "le": match r.below(3) { 0 => "none".to_string(), 1 => format!("e{}", r.range(1, 12)), _ => format!("e{}", r.range(1, 4)) }})
        }
        2 => json!({"e":"read","sid":if sid == "none" { "s1".into() } else { sid }}),
        3 => json!({"e":"hangup","sid":if sid == "none" { "s1".into() } else { sid }}),
        _ => json!({"e":"del","sid":sid}),
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" | "slow" => {
            let slow = o.fam == "slow";
            for sc in std::mem::take(&mut o.scripts) {
                plain_rt().block_on(play(o, sc[0].clone(), sc[1..].to_vec(), slow));
            }
        }
        // many answers are kept for a client that is away
        "long" => {
            for n in 0..o.n {
                let mut c = json!({"e":"init","stateful":true,"json":false,"store":true});
                if n % 3 == 0 {
                    c["default"] = json!(true);
                }
                let (ct, acc) = ("application/json", "application/json, text/event-stream");
                let post = |sid: &str, body: &str, id: String| {
                    json!({"e":"post","sid":sid,"pv":"none","ct":ct,"acc":acc,"body":body,"id":id,"arg":"x","form":"rpc"})
                };
                let get = |le: String| json!({"e":"get","sid":"s1","acc":acc,"le":le});
                let (read, bye) = (json!({"e":"read","sid":"s1"}), json!({"e":"hangup","sid":"s1"}));
                let mut ops = vec![post("none", "init", "n:1".into()), get("none".into())];
                let k = 60 + r.below(60) as i64;
                let away = r.below(3);
                for j in 0..k {
                    if away == 1 && j == k / 2 {
                        ops.push(bye.clone());
                    }
                    let body = *r.pick(&["ping", "call", "call", "fail"]);
                    ops.push(post("s1", body, format!("n:{}", j + 2)));
                }
                for le in [1 + r.below(4) as i64, r.range(5, k), k - 1] {
                    ops.push(read.clone());
                    ops.push(bye.clone());
                    ops.push(get(format!("e{le}")));
                    ops.push(read.clone());
                }
                plain_rt().block_on(play(o, c, ops, false));
            }
        }
        // very many sessions
        "crowd" => {
            for _ in 0..o.n {
                let c = json!({"e":"init","stateful":true,"json":r.chance(1, 2),"store":r.chance(1, 2)});
                let (ct, acc) = ("application/json", "application/json, text/event-stream");
                let post = |sid: &str, body: &str, id: String| {
                    json!({"e":"post","sid":sid,"pv":"none","ct":ct,"acc":acc,"body":body,"id":id,"arg":"x","form":"rpc"})
                };
                let k = 66 + r.below(70);
                let mut ops: Vec<Value> = (0..k).map(|_| post("none", "init", "n:1".into())).collect();
                for j in 0..14 {
                    let sid = format!("s{}", *r.pick(&[1, 2, 32, 63, 64, 65, k / 2, k - 1, k]));
                    ops.push(match r.below(5) {
                        0 => json!({"e":"del","sid":sid}),
                        1 => json!({"e":"get","sid":sid,"acc":acc,"le":"none"}),
                        _ => post(&sid, "call", format!("n:{j}")),
                    });
                }
                plain_rt().block_on(play(o, c, ops, false));
            }
        }
        f => {
            let f = f.to_string();
            for n in 0..o.n {
                let mut c = json!({"e":"init","stateful":r.chance(5, 6),"json":r.chance(1, 5),"store":r.chance(5, 6)});
                if n % 5 == 0 {
                    c["default"] = json!(true);
                }
                let mut live = vec![];
                let k = 8 + r.below(25);
                let ops = (0..k).map(|_| gen(&mut r, &c, &f, &mut live)).collect();
                plain_rt().block_on(play(o, c, ops, false));
            }
        }
    }
}
