//! The WebSocket server transport and its peers (P27).
use crate::core::*;
use crate::httpc::{message, unmessage, unwire, wire};
use crate::mk_exec;
use pmcp::server::transport::websocket::{WebSocketServerBuilder, WebSocketServerTransport};
use pmcp::shared::{Transport, TransportMessage};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::OwnedWriteHalf;
use tokio::net::TcpStream;

const MAX: usize = 2000;
/// What a peer has seen: messages, pongs, the end.
type Seen = Arc<Mutex<Vec<String>>>;
struct Peer {
    w: Arc<tokio::sync::Mutex<OwnedWriteHalf>>,
    seen: Seen,
    eof: Arc<std::sync::atomic::AtomicBool>,
}
pub fn frame(first: u8, payload: &[u8], masked: bool) -> Vec<u8> {
    let mut out = vec![first];
    let m = if masked { 0x80 } else { 0 };
    match payload.len() {
        n if n < 126 => out.push(m | n as u8),
        n if n < 65536 => {
            out.push(m | 126);
            out.extend((n as u16).to_be_bytes());
        }
        n => {
            out.push(m | 127);
            out.extend((n as u64).to_be_bytes());
        }
    }
    if masked {
        let key = [7u8, 1, 99, 200];
        out.extend(key);
        out.extend(payload.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    } else {
        out.extend(payload);
    }
    out
}
impl Peer {
    async fn connect(port: u16) -> std::io::Result<Peer> {
        let mut c = TcpStream::connect(("127.0.0.1", port)).await?;
        c.set_nodelay(true)?;
        c.write_all(b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n").await?;
        let mut q = Vec::new();
        let mut one = [0; 1];
        while !q.ends_with(b"\r\n\r\n") {
            if c.read(&mut one).await? == 0 {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            q.push(one[0]);
        }
        let (mut r, w) = c.into_split();
        let p = Peer { w: Arc::new(tokio::sync::Mutex::new(w)), seen: Default::default(), eof: Default::default() };
        let (w, seen, eof) = (p.w.clone(), p.seen.clone(), p.eof.clone());
        tokio::spawn(async move {
            let mut q: Vec<u8> = Vec::new();
            let mut buf = [0; 4096];
            let mut gone = false;
            let mut pongs = std::collections::HashSet::new();
            loop {
                // whole frames
                while q.len() >= 2 {
                    let (mut at, mut n) = (2, (q[1] & 127) as usize);
                    if n == 126 && q.len() >= 4 {
                        n = u16::from_be_bytes([q[2], q[3]]) as usize;
                        at = 4;
                    } else if n >= 126 {
                        break;
                    }
                    if q.len() < at + n {
                        break;
                    }
                    let body = q[at..at + n].to_vec();
                    let op = q[0];
                    q.drain(..at + n);
                    let item = match op {
                        0x81 => {
                            let m = unwire(&body);
                            format!("{}{}{}", s(&m, "k"), m["n"], s(&m, "t"))
                        }
                        0x8A => format!("pong{}", String::from_utf8_lossy(&body)),
                        0x88 => {
                            let _ = w.lock().await.write_all(&frame(0x88, &body, true)).await;
                            if !gone {
                                gone = true;
                                seen.lock().unwrap().push("gone".into());
                            }
                            continue;
                        }
                        op => format!("frame{op:x}"),
                    };
                    if gone {
                        continue;
                    }
                    let mut l = seen.lock().unwrap();
                    // a ping may be answered twice; each has a payload of its own
                    if !item.starts_with("pong") {
                        l.push(item);
                    } else if pongs.insert(item.clone()) {
                        l.push(item.split('.').next().unwrap().to_string());
                    }
                }
                match r.read(&mut buf).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => q.extend_from_slice(&buf[..n]),
                }
            }
            if !gone {
                seen.lock().unwrap().push("gone".into());
            }
            eof.store(true, std::sync::atomic::Ordering::SeqCst);
        });
        Ok(p)
    }
    async fn write(&self, bytes: &[u8]) {
        let _ = self.w.lock().await.write_all(bytes).await;
    }
    fn ended(&self) -> bool {
        self.eof.load(std::sync::atomic::Ordering::SeqCst)
    }
}
struct Sut {
    t: RefCell<WebSocketServerTransport>,
    port: u16,
    peers: RefCell<Vec<Peer>>,
    syncs: RefCell<usize>,
    ms: u64,
}
async fn until(ms: u64, mut f: impl FnMut() -> bool) {
    let end = std::time::Instant::now() + Duration::from_millis(ms);
    while !f() && std::time::Instant::now() < end {
        tokio::time::sleep(Duration::from_micros(200)).await;
    }
}
impl Sut {
    async fn new(c: &Value, slow: bool) -> Rc<Self> {
        loop {
            let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
            let mut t = WebSocketServerBuilder::new()
                .bind_addr(([127, 0, 0, 1], port).into())
                .max_message_size(MAX)
                .max_frame_size(MAX)
                .accept_unmasked_frames(b(c, "unmasked"))
                .build();
            if t.bind().await.is_ok() {
                return Rc::new(Sut { t: RefCell::new(t), port, peers: Default::default(), syncs: RefCell::new(0), ms: if slow { 1500 } else { 300 } });
            }
        }
    }
    /// Writes the frames; then waits until they have been processed.
    async fn peer(&self, fs: &Value, unmasked: bool) {
        let peers = self.peers.borrow();
        let p = peers.last().unwrap();
        let (mut q, mut ends, mut shut) = (Vec::new(), false, false);
        for f in fs.as_array().unwrap() {
            let text = wire(&f["m"]);
            let n = format!("{}.{}", i(&f["m"], "n"), self.syncs.replace_with(|x| *x + 1));
            let k = s(f, "f");
            match k {
                "text" => q.extend(frame(0x81, text.as_bytes(), true)),
                "unmasked" => q.extend(frame(0x81, text.as_bytes(), false)),
                "frag" => {
                    // in three pieces, with a ping in between
                    let (a, c) = (text.len() / 3, text.len() / 2);
                    q.extend(frame(0x01, &text.as_bytes()[..a], true));
                    q.extend(frame(0x89, n.as_bytes(), true));
                    q.extend(frame(0x00, &text.as_bytes()[a..c], true));
                    q.extend(frame(0x80, &text.as_bytes()[c..], true));
                }
                "ping" => q.extend(frame(0x89, n.as_bytes(), true)),
                "pong" => q.extend(frame(0x8A, n.as_bytes(), true)),
                "junk" => q.extend(frame(0x81, b"{\"jsonrpc\":", true)),
                "odd" => q.extend(frame(0x81, b"{\"a\":1}", true)),
                "bin" => q.extend(frame(0x82, text.as_bytes(), true)),
                "big" => q.extend(frame(0x81, &[b' '; MAX + 1], true)),
                "badutf" => q.extend(frame(0x81, b"\xff\xfe", true)),
                "reserved" => q.extend(frame(0x83, b"x", true)),
                "close" => q.extend(frame(0x88, &[], true)),
                "drop" => shut = true,
                k => panic!("frame {k}"),
            }
            ends |= matches!(k, "big" | "badutf" | "reserved" | "close" | "drop") || (k == "unmasked" && !unmasked);
            if shut {
                break;
            }
        }
        let mark = format!("sync{}", self.syncs.replace_with(|x| *x + 1));
        if !ends {
            q.extend(frame(0x89, mark.as_bytes(), true));
        }
        p.write(&q).await;
        if shut {
            let _ = p.w.lock().await.shutdown().await;
        }
        let mark = format!("pong{mark}");
        until(self.ms, || p.ended() || (!ends && p.seen.lock().unwrap().contains(&mark))).await;
        p.seen.lock().unwrap().retain(|x| *x != mark);
    }
    async fn recv(t: &mut WebSocketServerTransport, wait: u64) -> (&'static str, Value) {
        let none = json!({"k":"","n":0,"t":""});
        match tokio::time::timeout(Duration::from_millis(wait), t.receive()).await {
            Ok(Ok(m)) => ("ok", unmessage(&m)),
            Ok(Err(_)) => ("err", none),
            Err(_) => ("wait", none),
        }
    }
    async fn exec(self: Rc<Self>, op: Value, unmasked: bool) -> Value {
        let mut t = self.t.borrow_mut();
        let mut m = json!({"k":"","n":0,"t":""});
        let mut k = "ok";
        match s(&op, "e") {
            "accept" => {
                let good = b(&op, "good");
                let peer = async {
                    if good {
                        return Peer::connect(self.port).await.ok();
                    }
                    let mut c = TcpStream::connect(("127.0.0.1", self.port)).await.ok()?;
                    let text: &[u8] = if self.port % 2 == 0 { b"GET / HTTP/1.1\r\nHost: x\r\n\r\n" } else { b"\x16\x03\x01 what\r\n\r\n" };
                    let _ = c.write_all(text).await;
                    let _ = c.shutdown().await;
                    let mut rest = Vec::new();
                    let _ = c.read_to_end(&mut rest).await;
                    None
                };
                let (r, p) = tokio::join!(t.accept(), peer);
                k = if r.is_ok() { "ok" } else { "err" };
                if let Some(p) = p {
                    if let Some(old) = self.peers.borrow().last() {
                        until(self.ms, || old.ended()).await;
                    }
                    self.peers.borrow_mut().push(p);
                }
            }
            "send" | "sendall" | "close" => {
                let empty = json!([]);
                let ms = match s(&op, "e") {
                    "send" => json!([op["m"]]),
                    "close" => empty,
                    _ => op["ms"].clone(),
                };
                let bye = s(&op, "e") == "close" || op["bye"] == true;
                for m in ms.as_array().unwrap() {
                    let m: TransportMessage = message(m);
                    if t.send(m).await.is_err() {
                        k = "err";
                    }
                }
                if bye && t.close().await.is_err() {
                    k = "closefails";
                }
                let n = ms.as_array().unwrap().len();
                if let (Some(p), "ok") = (self.peers.borrow().last(), k) {
                    until(self.ms, || p.ended() || (!bye && p.seen.lock().unwrap().len() >= n)).await;
                }
            }
            "recv" => (k, m) = Self::recv(&mut t, 2).await,
            "peer" => {
                if b(&op, "waiting") {
                    // the receive is waiting first; it may last a little longer than the frames
                    let ((), (a, c)) = tokio::join!(
                        async {
                            settle_n(5).await;
                            self.peer(&op["fs"], unmasked).await
                        },
                        async {
                            let f = Self::recv(&mut t, 1_000_000);
                            let mut f = std::pin::pin!(f);
                            let done = async {
                                // ends with the frames
                                loop {
                                    tokio::time::sleep(Duration::from_micros(300)).await;
                                    if self.peers.try_borrow_mut().is_ok() {
                                        return;
                                    }
                                }
                            };
                            tokio::select! { biased; x = &mut f => x, _ = async { settle_n(20).await; done.await; settle_n(100).await } => ("wait", json!({"k":"","n":0,"t":""})) }
                        }
                    );
                    (k, m) = (a, c);
                } else {
                    self.peer(&op["fs"], unmasked).await;
                }
            }
            e => panic!("op {e}"),
        }
        let mut seen = vec![];
        for (n, p) in self.peers.borrow().iter().enumerate() {
            let items: Vec<String> = p.seen.lock().unwrap().drain(..).collect();
            if !items.is_empty() {
                seen.push(json!({"at":n + 1,"items":items}));
            }
        }
        json!({"k":k,"m":m,"seen":seen,"up":t.is_connected()})
    }
}
struct Both(Rc<Sut>, bool);
impl Both {
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        self.0.clone().exec(op, self.1).await
    }
}
fn one<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
fn msg(r: &mut Rng) -> Value {
    json!({"k":one(r, &["req","note","resp","fail"]),"n":r.range(1, 999),"t":one(r, &["x","é€😀","a \"b\"","line\nline","[1]"])})
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scripts: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n)
            .map(|_| {
                let unmasked = r.chance(1, 3);
                let mut sc = vec![json!({"e":"init","unmasked":unmasked})];
                let mut live = false;
                for k in 0..6 + r.below(20) {
                    let op = match r.below(16) {
                        _ if k == 0 => json!({"e":"accept","good":true}),
                        0 | 1 => json!({"e":"accept","good":!live || r.chance(1, 2)}),
                        2 | 3 => json!({"e":"send","m":msg(&mut r)}),
                        4 => json!({"e":"sendall","ms":(0..r.below(8)).map(|_| msg(&mut r)).collect::<Vec<_>>(),"bye":r.chance(1, 5)}),
                        5 if r.chance(1, 3) => json!({"e":"close"}),
                        6..=9 => json!({"e":"recv"}),
                        _ if live => {
                            let fatal = r.chance(1, 8);
                            let quiet: &[&str] = if fatal { &["text", "text", "junk", "odd", "bin", "pong"] } else { &["text", "text", "text", "frag", "ping", "junk", "odd", "bin", "pong"] };
                            let mut fs: Vec<Value> = (0..r.below(9)).map(|_| json!({"f":one(&mut r, quiet),"m":msg(&mut r)})).collect();
                            if fatal {
                                fs.push(json!({"f":one(&mut r, &["close","drop","big","badutf","reserved","unmasked"]),"m":msg(&mut r)}));
                                fs.push(json!({"f":"text","m":msg(&mut r)}));
                            } else if unmasked && r.chance(1, 2) {
                                fs.push(json!({"f":"unmasked","m":msg(&mut r)}));
                            }
                            json!({"e":"peer","fs":fs,"waiting":r.chance(1, 3)})
                        }
                        _ => json!({"e":"recv"}),
                    };
                    match s(&op, "e") {
                        "accept" if op["good"] == true => live = true,
                        "close" => live = false,
                        "sendall" if op["bye"] == true => live = false,
                        "peer" => {
                            live = !op["fs"].as_array().unwrap().iter().any(|f| matches!(s(f, "f"), "close" | "drop" | "big" | "badutf" | "reserved") || (f["f"] == "unmasked" && !unmasked))
                        }
                        _ => {}
                    }
                    sc.push(op);
                }
                sc
            })
            .collect(),
        // very many messages, read late
        "crowd" => (0..o.n)
            .map(|_| {
                let mut sc = vec![json!({"e":"init","unmasked":false}), json!({"e":"accept","good":true})];
                let k = 40 + r.below(30);
                if r.chance(1, 2) {
                    sc.push(json!({"e":"sendall","ms":(0..k).map(|_| msg(&mut r)).collect::<Vec<_>>(),"bye":false}));
                }
                sc.push(json!({"e":"peer","fs":(0..k).map(|_| json!({"f":"text","m":msg(&mut r)})).collect::<Vec<_>>(),"waiting":false}));
                for _ in 0..k {
                    sc.push(json!({"e":"recv"}));
                }
                sc.push(json!({"e":"send","m":msg(&mut r)}));
                sc
            })
            .collect(),
        f => panic!("family {f}"),
    };
    for sc in scripts {
        plain_rt().block_on(async {
            let x = Rc::new(Both(Sut::new(&sc[0], slow).await, b(&sc[0], "unmasked")));
            play_seq_n(o, 20_000_000, mk_exec!(x), sc[0].clone(), sc[1..].to_vec(), false).await
        });
    }
}
