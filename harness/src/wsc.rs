//! The WebSocket client transport and a server that misbehaves (P32): real sockets, virtual time.
use crate::core::*;
use crate::httpc::{message, unmessage, unwire, wire};
use crate::ws::frame;
use base64::Engine;
use pmcp::shared::websocket::{WebSocketConfig, WebSocketTransport};
use pmcp::shared::Transport;
use serde_json::{json, Value};
use sha1::{Digest, Sha1};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::OwnedWriteHalf;
use tokio::net::{TcpListener, TcpStream};

/// A unit of time.
const UNIT: u64 = 10;
#[derive(Default)]
struct World {
    mode: String,
    seen: Vec<String>,
    pings: usize,
    byes: Vec<usize>,
    conns: usize,
    last: Option<Arc<tokio::sync::Mutex<OwnedWriteHalf>>>,
    held: Vec<TcpStream>,
    busy: usize,
}
type Shared = Arc<Mutex<World>>;
fn note(w: &Shared, x: String) {
    let mut w = w.lock().unwrap();
    w.seen.push(x);
    w.busy += 1;
}
async fn head(c: &mut TcpStream) -> Option<String> {
    let mut q = Vec::new();
    let mut one = [0; 1];
    while !q.ends_with(b"\r\n\r\n") {
        if !matches!(c.read(&mut one).await, Ok(1)) {
            return None;
        }
        q.push(one[0]);
    }
    Some(String::from_utf8_lossy(&q).into_owned())
}
async fn serve(mut c: TcpStream, w: Shared) {
    let _ = c.set_nodelay(true);
    let mode = w.lock().unwrap().mode.clone();
    note(&w, "try".into());
    match mode.as_str() {
        "hang" => return w.lock().unwrap().held.push(c),
        "cut" => return,
        _ => {}
    }
    let Some(q) = head(&mut c).await else { return };
    if mode == "no" {
        let _ = c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").await;
        return;
    }
    let key = q.lines().find_map(|l| l.to_lowercase().starts_with("sec-websocket-key:").then(|| l[18..].trim().to_string())).unwrap_or_default();
    let mut sha = Sha1::new();
    sha.update(format!("{key}258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
    let ok = base64::engine::general_purpose::STANDARD.encode(sha.finalize());
    let (mut r, wr) = {
        let _ = c.write_all(format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {ok}\r\n\r\n").as_bytes()).await;
        c.into_split()
    };
    let wr = Arc::new(tokio::sync::Mutex::new(wr));
    let me = {
        let mut w = w.lock().unwrap();
        w.conns += 1;
        w.last = Some(wr.clone());
        w.conns
    };
    let born = tokio::time::Instant::now();
    let mut q: Vec<u8> = Vec::new();
    let mut buf = [0; 4096];
    let mut pongs = std::collections::HashSet::new();
    loop {
        while q.len() >= 6 {
            let (mut at, mut n) = (2, (q[1] & 127) as usize);
            if n == 126 && q.len() >= 8 {
                n = u16::from_be_bytes([q[2], q[3]]) as usize;
                at = 4;
            } else if n >= 126 {
                break;
            }
            if q.len() < at + 4 + n {
                break;
            }
            let key = q[at..at + 4].to_vec();
            let body: Vec<u8> = q[at + 4..at + 4 + n].iter().enumerate().map(|(i, b)| b ^ key[i % 4]).collect();
            let (op, masked) = (q[0], q[1] & 128 != 0);
            q.drain(..at + 4 + n);
            match op {
                _ if !masked => note(&w, format!("{me}:unmasked")),
                0x81 => {
                    let m = unwire(&body);
                    note(&w, format!("{me}:{}{}{}", s(&m, "k"), m["n"], s(&m, "t")))
                }
                0x89 => {
                    // the one that a connection may begin with does not count
                    if tokio::time::Instant::now() > born {
                        w.lock().unwrap().pings += 1;
                    }
                    let _ = wr.lock().await.write_all(&frame(0x8A, &body, false)).await;
                }
                0x8A => {
                    // a ping may be answered twice; each has a payload of its own
                    let item = format!("{me}:pong{}", String::from_utf8_lossy(&body));
                    if pongs.insert(item.clone()) {
                        note(&w, item.split('.').next().unwrap().to_string());
                    }
                }
                0x88 => {
                    w.lock().unwrap().byes.push(me);
                    let _ = wr.lock().await.write_all(&frame(0x88, &body, false)).await;
                }
                op => note(&w, format!("{me}:frame{op:x}")),
            }
        }
        // the client may hold back small writes until earlier ones are acknowledged
        let on: libc::c_int = 1;
        let fd = std::os::fd::AsRawFd::as_raw_fd(r.as_ref());
        unsafe { libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, std::ptr::addr_of!(on).cast(), 4) };
        match r.read(&mut buf).await {
            Ok(0) | Err(_) => break,
            Ok(n) => {
                w.lock().unwrap().busy += 1;
                q.extend_from_slice(&buf[..n])
            }
        }
    }
    note(&w, format!("{me}:gone"));
}
struct Sut {
    t: Arc<tokio::sync::Mutex<WebSocketTransport>>,
    w: Shared,
    op: Option<tokio::task::JoinHandle<(&'static str, Value)>>,
    syncs: usize,
    slow: bool,
}
fn none() -> Value {
    json!({"k":"","n":0,"t":""})
}
impl Sut {
    async fn new(c: &Value, slow: bool) -> Sut {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let unit = |f: &str| Duration::from_millis(UNIT * i(c, f) as u64);
        let t = WebSocketTransport::new(WebSocketConfig {
            url: format!("ws://127.0.0.1:{}/x", l.local_addr().unwrap().port()).parse().unwrap(),
            auto_reconnect: b(c, "auto"),
            reconnect_delay: unit("delay"),
            max_reconnect_delay: unit("cap"),
            max_reconnect_attempts: (i(c, "max") > 0).then(|| i(c, "max") as u32),
            ping_interval: (i(c, "ping") > 0).then(|| unit("ping")),
            request_timeout: Duration::from_secs(1000),
        });
        let w: Shared = Arc::new(Mutex::new(World { mode: "good".into(), ..Default::default() }));
        let w2 = w.clone();
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                tokio::spawn(serve(c, w2.clone()));
            }
        });
        Sut { t: Arc::new(tokio::sync::Mutex::new(t)), w, op: None, syncs: 0, slow }
    }
    /// Lets things happen, until nothing has for a while.
    async fn quiet(&self) {
        let (rounds, us) = if self.slow { (60, 1000) } else { (4, 150) };
        let mut calm = 0;
        while calm < rounds {
            let before = self.w.lock().unwrap().busy;
            settle_n(8).await;
            std::thread::sleep(Duration::from_micros(us));
            settle_n(8).await;
            calm = if self.w.lock().unwrap().busy == before { calm + 1 } else { 0 };
        }
    }
    async fn until(&self, ms: u64, mut f: impl FnMut(&Sut) -> bool) {
        let end = std::time::Instant::now() + Duration::from_millis(if self.slow { ms * 5 } else { ms });
        loop {
            settle_n(8).await;
            if f(self) || std::time::Instant::now() > end {
                return;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    fn start(&mut self, op: &Value) {
        let (t, op) = (self.t.clone(), op.clone());
        self.op = Some(tokio::spawn(async move {
            let mut t = t.lock().await;
            let done = |ok| (if ok { "ok" } else { "err" }, none());
            match s(&op, "e") {
                "connect" => done(t.connect().await.is_ok()),
                "send" => done(t.send(message(&op["m"])).await.is_ok()),
                _ => match t.receive().await {
                    Ok(m) => ("got", unmessage(&m)),
                    Err(_) => ("err", none()),
                },
            }
        }));
    }
    async fn peer(&mut self, fs: &Value) {
        let (mut q, mut ends, mut shut) = (Vec::new(), false, false);
        for f in fs.as_array().unwrap() {
            let text = wire(&f["m"]);
            self.syncs += 1;
            let n = format!("{}.{}", i(&f["m"], "n"), self.syncs);
            let k = s(f, "f");
            match k {
                "text" => q.extend(frame(0x81, text.as_bytes(), false)),
                "frag" => {
                    let (a, c) = (text.len() / 3, text.len() / 2);
                    q.extend(frame(0x01, &text.as_bytes()[..a], false));
                    q.extend(frame(0x89, n.as_bytes(), false));
                    q.extend(frame(0x00, &text.as_bytes()[a..c], false));
                    q.extend(frame(0x80, &text.as_bytes()[c..], false));
                }
                "ping" => q.extend(frame(0x89, n.as_bytes(), false)),
                "pong" => q.extend(frame(0x8A, n.as_bytes(), false)),
                "junk" => q.extend(frame(0x81, b"{\"jsonrpc\":", false)),
                "odd" => q.extend(frame(0x81, b"{\"a\":1}", false)),
                "bin" => q.extend(frame(0x82, text.as_bytes(), false)),
                "badutf" => q.extend(frame(0x81, b"\xff\xfe", false)),
                "reserved" => q.extend(frame(0x83, b"x", false)),
                "close" => q.extend(frame(0x88, &[], false)),
                "drop" => shut = true,
                k => panic!("frame {k}"),
            }
            ends |= matches!(k, "badutf" | "reserved" | "close" | "drop");
            if shut {
                break;
            }
        }
        self.syncs += 1;
        let sync = format!("sync{}", self.syncs);
        if !ends {
            q.extend(frame(0x89, sync.as_bytes(), false));
        }
        let (wr, me) = {
            let w = self.w.lock().unwrap();
            (w.last.clone().unwrap(), w.conns)
        };
        {
            let mut wr = wr.lock().await;
            let _ = wr.write_all(&q).await;
            if shut {
                let _ = wr.shutdown().await;
            }
        }
        let want = if ends { format!("{me}:gone") } else { format!("{me}:pong{sync}") };
        self.until(100, |x| x.w.lock().unwrap().seen.contains(&want)).await;
        if !ends {
            self.w.lock().unwrap().seen.retain(|x| *x != want);
        }
    }
    async fn exec(&mut self, op: &Value) -> Value {
        let mut own = "none";
        let e = s(op, "e");
        match e {
            "connect" | "send" | "recv" => self.start(op),
            "sendall" => {
                own = "ok";
                let mut t = self.t.lock().await;
                for m in op["ms"].as_array().unwrap() {
                    if t.send(message(m)).await.is_err() {
                        own = "err";
                    }
                }
                drop(t);
                let n = op["ms"].as_array().unwrap().len();
                self.until(100, |x| x.w.lock().unwrap().seen.len() >= n).await
            }
            "drop" => {
                if let Some(h) = self.op.take() {
                    h.abort();
                    let _ = h.await;
                }
            }
            "close" => {
                own = "ok";
                let t = self.t.clone();
                let h = tokio::spawn(async move { t.lock().await.close().await.is_ok() });
                self.until(100, |_| h.is_finished()).await;
                if !h.is_finished() || !h.await.unwrap_or(false) {
                    own = "err";
                }
            }
            "mode" => self.w.lock().unwrap().mode = s(op, "m").into(),
            "peer" => self.peer(&op["fs"]).await,
            "tick" => {
                for _ in 0..i(op, "d") {
                    tokio::time::advance(Duration::from_millis(UNIT)).await;
                    self.quiet().await;
                }
            }
            e => panic!("op {e}"),
        }
        self.quiet().await;
        let (mut k, mut m) = (own, none());
        if let Some(h) = &mut self.op {
            k = "wait";
            if h.is_finished() {
                (k, m) = h.await.unwrap_or(("died", none()));
                self.op = None;
            }
        }
        let up = k != "wait" && self.t.try_lock().is_ok_and(|t| t.is_connected());
        let mut w = self.w.lock().unwrap();
        let mut seen = std::mem::take(&mut w.seen);
        if e == "close" {
            // the end is announced
            let byes = &w.byes;
            seen.retain(|x| x.strip_suffix(":gone").is_none_or(|c| byes.iter().any(|b| b.to_string() == c)));
        }
        json!({"k":k,"m":m,"seen":seen,"pings":std::mem::take(&mut w.pings),"up":up})
    }
}
fn one<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
fn msg(r: &mut Rng) -> Value {
    json!({"k":one(r, &["req","note","resp","fail"]),"n":r.range(1, 999),"t":one(r, &["x","é€😀","a \"b\"","line\nline","[1]"])})
}
fn random(r: &mut Rng) -> Vec<Value> {
    let delay = r.range(1, 4);
    let mut sc = vec![json!({"e":"init","auto":r.chance(2, 3),"delay":delay,"cap":delay + r.range(0, 12),"max":if r.chance(1, 2) { 0 } else { r.range(1, 4) },"ping":if r.chance(1, 2) { 0 } else { r.range(1, 9) }})];
    sc.push(json!({"e":"connect"}));
    for _ in 0..8 + r.below(24) {
        sc.push(match r.below(20) {
            0 | 1 => json!({"e":"connect"}),
            2 | 3 => json!({"e":"send","m":msg(r)}),
            4 => json!({"e":"sendall","ms":(0..r.below(8)).map(|_| msg(r)).collect::<Vec<_>>()}),
            5..=8 => json!({"e":"recv"}),
            9 | 10 => json!({"e":"drop"}),
            11 if r.chance(1, 2) => json!({"e":"close"}),
            12 | 13 => json!({"e":"mode","m":one(r, &["good","good","no","cut","hang"])}),
            14..=16 => json!({"e":"tick","d":r.range(1, 15)}),
            _ => {
                let fatal = r.chance(1, 4);
                let quiet: &[&str] = if fatal { &["text", "text", "junk", "odd", "bin", "pong"] } else { &["text", "text", "text", "frag", "ping", "junk", "odd", "bin", "pong"] };
                let mut fs: Vec<Value> = (0..r.below(9)).map(|_| json!({"f":one(r, quiet),"m":msg(r)})).collect();
                if fatal {
                    fs.push(json!({"f":one(r, &["close","drop","badutf","reserved"]),"m":msg(r)}));
                    fs.push(json!({"f":"text","m":msg(r)}));
                }
                json!({"e":"peer","fs":fs})
            }
        });
    }
    sc
}
/// Very many messages, read late.
fn crowd(r: &mut Rng) -> Vec<Value> {
    let mut sc = vec![json!({"e":"init","auto":true,"delay":2,"cap":8,"max":0,"ping":0}), json!({"e":"connect"})];
    let k = 66 + r.below(30);
    if r.chance(1, 2) {
        sc.push(json!({"e":"sendall","ms":(0..k).map(|_| msg(r)).collect::<Vec<_>>()}));
    }
    sc.push(json!({"e":"peer","fs":(0..k).map(|_| json!({"f":"text","m":msg(r)})).collect::<Vec<_>>()}));
    for _ in 0..k {
        sc.push(json!({"e":"recv"}));
    }
    sc.push(json!({"e":"send","m":msg(r)}));
    sc
}
async fn play(sc: &[Value], slow: bool) -> Vec<Value> {
    let mut x = Sut::new(&sc[0], slow).await;
    let mut tr = vec![sc[0].clone()];
    let mut up = false;
    for op in &sc[1..] {
        let mut op = op.clone();
        op.as_object_mut().unwrap().remove("r");
        let e = s(&op, "e");
        // one operation at a time; the server can write only to a connection that is up
        let gone = x.w.lock().unwrap().last.is_none();
        if matches!(e, "connect" | "send" | "recv" | "close" | "sendall") && x.op.is_some()
            || e == "drop" && x.op.is_none()
            || e == "sendall" && !up
            || e == "peer" && (gone || !(up || x.op.is_some()))
        {
            continue;
        }
        if e == "peer" && x.op.is_some() && !up {
            continue;
        }
        let r = x.exec(&op).await;
        for q in r["seen"].as_array().unwrap() {
            if q.as_str().unwrap().ends_with(":gone") {
                up = false;
            }
        }
        // a receive that waits on a live connection, or a finished operation, tells
        let conns = x.w.lock().unwrap().conns;
        if r["k"] != "wait" {
            up = b(&r, "up");
        } else if r["seen"].as_array().unwrap().iter().any(|q| q == "try") {
            up = x.w.lock().unwrap().mode == "good" && conns > 0;
        }
        let stop = r["k"] == "died";
        tr.push(ev(&op, r));
        if stop {
            break;
        }
    }
    if let Some(h) = x.op.take() {
        h.abort();
    }
    tr
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scs: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n).map(|_| random(&mut r)).collect(),
        "crowd" => (0..o.n).map(|_| crowd(&mut r)).collect(),
        f => panic!("family {f}"),
    };
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    std::thread::scope(|t| {
        for _ in 0..if slow { 4 } else { 12 } {
            t.spawn(|| loop {
                let n = next.fetch_add(1, SeqCst);
                let Some(sc) = scs.get(n) else { break };
                let tr = paused_rt().block_on(play(sc, slow));
                done.lock().unwrap().push((n, tr));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    for (_, tr) in done {
        o.out.put(tr);
    }
}
