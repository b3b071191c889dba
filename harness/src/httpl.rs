//! The plain HTTP client transport with its event stream (P34): real sockets, virtual time.
use crate::core::*;
use crate::httpc::{message, unmessage, unwire, wire};
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::Transport;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::OwnedWriteHalf;
use tokio::net::{TcpListener, TcpStream};

const UNIT: u64 = 10;
#[derive(Default)]
struct World {
    answer: String,
    back: String,
    seen: Vec<Value>,
    held: Vec<TcpStream>,
    stream: Option<OwnedWriteHalf>,
    busy: usize,
}
type Shared = Arc<Mutex<World>>;
async fn serve(mut c: TcpStream, w: Shared) {
    let _ = c.set_nodelay(true);
    let mut q = Vec::new();
    let mut buf = [0; 4096];
    let (head, body) = loop {
        match c.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => q.extend_from_slice(&buf[..n]),
        }
        w.lock().unwrap().busy += 1;
        if let Some(at) = q.windows(4).position(|x| x == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&q[..at]).into_owned();
            let len: usize = head.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").and_then(|x| x.trim().parse().ok())).unwrap_or(0);
            if q.len() >= at + 4 + len {
                break (head, q[at + 4..at + 4 + len].to_vec());
            }
        }
    };
    let lines: Vec<(String, String)> = head.lines().skip(1).filter_map(|l| l.split_once(':')).map(|x| (x.0.to_lowercase(), x.1.trim().to_string())).collect();
    let has = |k: &str, v: &str| lines.iter().any(|x| x.0 == k && x.1.split(',').any(|y| y.trim() == v));
    // Order between headers of different names means nothing: sorted by name, values of one name in order.
    let mut heads: Vec<Value> = lines.iter().filter(|x| x.0.starts_with("x-") || x.0 == "authorization").map(|x| json!([x.0, x.1])).collect();
    heads.sort_by_key(|h| h[0].as_str().unwrap_or("").to_string());
    let first: Vec<&str> = head.lines().next().unwrap_or("").split(' ').collect();
    let get = first[0] == "GET";
    let (at, good) = if get {
        ("GET ".to_string(), first[1] == "/events?a=1" && has("accept", "text/event-stream"))
    } else {
        let m = unwire(&body);
        (format!("{} {}{}{}", first[0], s(&m, "k"), m["n"], s(&m, "t")), first[1] == "/mcp/x" && has("content-type", "application/json"))
    };
    let (answer, back) = {
        let mut w = w.lock().unwrap();
        w.busy += 1;
        w.seen.push(json!({"at":at,"good":good,"heads":heads}));
        (w.answer.clone(), w.back.clone())
    };
    if get && answer == "200" {
        let _ = c.write_all(b"HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nTransfer-Encoding: chunked\r\n\r\n").await;
        let (mut r, wr) = c.into_split();
        w.lock().unwrap().stream = Some(wr);
        while !matches!(r.read(&mut buf).await, Ok(0) | Err(_)) {}
        let mut w = w.lock().unwrap();
        w.busy += 1;
        if w.stream.take().is_some() {
            w.seen.push(json!({"at":"end","good":true,"heads":[]}));
        }
        return;
    }
    let (status, text) = match answer.as_str() {
        "msg" => ("200 OK", back),
        "202" => ("202 Accepted", String::new()),
        "202text" => ("202 Accepted", "Accepted".into()),
        "204" => ("204 No Content", String::new()),
        "empty" => ("200 OK", String::new()),
        "404" => ("404 Not Found", String::new()),
        "500msg" => ("500 Internal Server Error", back),
        "junk" => ("200 OK", "{\"jsonrpc\":".into()),
        "half" | "slow" => {
            let _ = c.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{}", back.len(), &back[..9]).as_bytes()).await;
            if answer == "slow" {
                w.lock().unwrap().held.push(c);
            }
            return;
        }
        "mute" => return w.lock().unwrap().held.push(c),
        _ => return,
    };
    let len = if status.starts_with("204") { String::new() } else { format!("Content-Length: {}\r\n", text.len()) };
    let _ = c.write_all(format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\n{len}Connection: close\r\n\r\n{text}").as_bytes()).await;
    w.lock().unwrap().busy += 1;
}
struct Sut {
    t: Arc<tokio::sync::Mutex<HttpTransport>>,
    w: Shared,
    op: Option<tokio::task::JoinHandle<(&'static str, Value)>>,
    ends: usize,
    slow: bool,
}
fn none() -> Value {
    json!({"k":"","n":0,"t":""})
}
impl Sut {
    async fn new(c: &Value, slow: bool) -> Sut {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let t = HttpTransport::new(HttpConfig {
            base_url: format!("http://127.0.0.1:{}/mcp/x", l.local_addr().unwrap().port()).parse().unwrap(),
            sse_endpoint: b(c, "sse").then(|| "/events?a=1".into()),
            timeout: Duration::from_millis(UNIT * i(c, "wait") as u64),
            headers: c["heads"].as_array().unwrap().iter().map(|h| (h[0].as_str().unwrap().into(), h[1].as_str().unwrap().into())).collect(),
            ..Default::default()
        });
        let w: Shared = Default::default();
        let w2 = w.clone();
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                tokio::spawn(serve(c, w2.clone()));
            }
        });
        Sut { t: Arc::new(tokio::sync::Mutex::new(t)), w, op: None, ends: 0, slow }
    }
    /// Lets things happen, until nothing has for a while.
    async fn quiet(&self) {
        let (rounds, us) = if self.slow { (60, 1000) } else { (4, 150) };
        let mut calm = 0;
        while calm < rounds {
            let before = self.w.lock().unwrap().busy;
            settle_n(8).await;
            std::thread::sleep(Duration::from_micros(us));
            settle_n(8).await;
            calm = if self.w.lock().unwrap().busy == before { calm + 1 } else { 0 };
        }
    }
    async fn until(&self, ms: u64, mut f: impl FnMut(&Sut) -> bool) {
        let end = std::time::Instant::now() + Duration::from_millis(if self.slow { ms * 20 } else { ms });
        loop {
            settle_n(8).await;
            if f(self) || std::time::Instant::now() > end {
                return;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    fn start(&mut self, op: &Value) {
        let (t, op) = (self.t.clone(), op.clone());
        self.op = Some(tokio::spawn(async move {
            let mut t = t.lock().await;
            let done = |ok| (if ok { "ok" } else { "err" }, none());
            match s(&op, "e") {
                "connect" => done(t.connect_sse().await.is_ok()),
                "send" => done(t.send(message(&op["m"])).await.is_ok()),
                "close" => done(t.close().await.is_ok()),
                _ => match t.receive().await {
                    Ok(m) => ("got", unmessage(&m)),
                    Err(_) => ("err", none()),
                },
            }
        }));
    }
    async fn feed(&mut self, op: &Value) {
        let mut q = String::new();
        for f in op["fs"].as_array().unwrap() {
            match s(f, "f") {
                "msg" => q += &format!("data: {}\n\n", wire(&f["m"])),
                "junk" => q += "data: {\"jsonrpc\"\n\n",
                "odd" => q += "event: x\ndata: {\"a\":1}\n\n",
                _ => q += ": hello\n\n",
            }
        }
        // scripts may name a stream that is not there: then the trace shows it
        let Some(mut wr) = self.w.lock().unwrap().stream.take() else { return };
        if !q.is_empty() {
            let _ = wr.write_all(format!("{:x}\r\n{q}\r\n", q.len()).as_bytes()).await;
        }
        if op["end"] == true {
            self.ends += 1;
            if self.ends % 2 == 0 {
                let _ = wr.write_all(b"0\r\n\r\n").await;
            }
            let _ = wr.shutdown().await;
            let t = self.t.clone();
            self.until(50, |x| x.op.as_ref().map_or_else(|| t.try_lock().is_ok_and(|t| !t.is_connected()), |h| h.is_finished())).await;
        } else {
            self.w.lock().unwrap().stream = Some(wr);
            if !q.is_empty() {
                let has = q.contains("\"2.0\"");
                self.until(if has { 20 } else { 0 }, |x| x.op.as_ref().is_none_or(|h| h.is_finished())).await;
            }
        }
    }
    async fn exec(&mut self, op: &Value) -> Value {
        let e = s(op, "e");
        match e {
            "connect" | "send" | "recv" | "close" => {
                let streaming = self.w.lock().unwrap().stream.is_some();
                if e != "recv" && e != "close" {
                    let mut w = self.w.lock().unwrap();
                    w.answer = s(op, "answer").into();
                    w.back = op.get("back").map(wire).unwrap_or_default();
                }
                self.start(op);
                self.until(if e == "recv" { 1 } else { 8 }, |x| x.op.as_ref().is_none_or(|h| h.is_finished())).await;
                if e == "close" && streaming {
                    self.until(100, |x| x.w.lock().unwrap().stream.is_none()).await;
                }
            }
            "drop" => {
                if let Some(h) = self.op.take() {
                    h.abort();
                    let _ = h.await;
                }
            }
            "feed" => self.feed(op).await,
            "tick" => {
                for _ in 0..i(op, "d") {
                    tokio::time::advance(Duration::from_millis(UNIT)).await;
                    self.quiet().await;
                }
            }
            e => panic!("op {e}"),
        }
        self.quiet().await;
        let (mut k, mut m) = ("none", none());
        if let Some(h) = &mut self.op {
            k = "wait";
            if h.is_finished() {
                (k, m) = h.await.unwrap_or(("died", none()));
                self.op = None;
            }
        }
        let up = k != "wait" && self.t.try_lock().is_ok_and(|t| t.is_connected());
        json!({"k":k,"m":m,"seen":std::mem::take(&mut self.w.lock().unwrap().seen),"up":up})
    }
}
fn one<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
fn msg(r: &mut Rng) -> Value {
    json!({"k":one(r, &["req","note","resp","fail"]),"n":r.range(1, 999),"t":one(r, &["x","é€😀","a \"b\"","line\nline","[1]"])})
}
fn random(r: &mut Rng) -> Vec<Value> {
    let heads: Vec<Value> = [json!(["authorization", "Bearer y"]), json!(["x-a", "1"]), json!(["x-a", "2"]), json!(["x-b", "a, b"])].into_iter().filter(|_| r.chance(1, 2)).collect();
    let sse = r.chance(3, 4);
    let mut sc = vec![json!({"e":"init","sse":sse,"wait":r.range(2, 9),"heads":heads})];
    sc.push(json!({"e":"connect","answer":"200"}));
    for _ in 0..6 + r.below(20) {
        sc.push(match r.below(20) {
            0 | 1 => json!({"e":"connect","answer":if sse { one(r, &["200","200","404","cut"]) } else { "200" }}),
            2..=6 => {
                let m = msg(r);
                json!({"e":"send","m":m,"answer":one(r, &["msg","msg","msg","202","202text","204","empty","404","500msg","junk","cut","half","mute","slow"]),"back":msg(r)})
            }
            7..=10 => json!({"e":"recv"}),
            11 => json!({"e":"drop"}),
            12 if r.chance(1, 2) => json!({"e":"close"}),
            13..=14 => json!({"e":"tick","d":r.range(1, 6)}),
            _ => {
                let n = if r.chance(1, 15) { 120 } else { 5 };
                let fs: Vec<Value> = (0..r.below(n)).map(|_| json!({"f":one(r, &["msg","msg","junk","odd","comment"]),"m":msg(r)})).collect();
                json!({"e":"feed","fs":fs,"end":r.chance(1, 5)})
            }
        });
    }
    sc
}
async fn play(sc: &[Value], slow: bool) -> Vec<Value> {
    let mut x = Sut::new(&sc[0], slow).await;
    let mut tr = vec![sc[0].clone()];
    let mut up = false;
    for op in &sc[1..] {
        let mut op = op.clone();
        op.as_object_mut().unwrap().remove("r");
        let e = s(&op, "e");
        let waits = x.op.is_some();
        if matches!(e, "connect" | "send" | "recv" | "close") && waits
            || e == "drop" && !waits
            || e == "connect" && up
            || e == "feed" && x.w.lock().unwrap().stream.is_none()
        {
            continue;
        }
        let r = x.exec(&op).await;
        if r["k"] != "wait" {
            up = b(&r, "up");
        }
        let stop = r["k"] == "died";
        tr.push(ev(&op, r));
        if stop {
            break;
        }
    }
    if let Some(h) = x.op.take() {
        h.abort();
    }
    tr
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scs: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n).map(|_| random(&mut r)).collect(),
        f => panic!("family {f}"),
    };
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    std::thread::scope(|t| {
        for _ in 0..if slow { 4 } else { 12 } {
            t.spawn(|| loop {
                let n = next.fetch_add(1, SeqCst);
                let Some(sc) = scs.get(n) else { break };
                let tr = paused_rt().block_on(play(sc, slow));
                done.lock().unwrap().push((n, tr));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    for (_, tr) in done {
        o.out.put(tr);
    }
}
