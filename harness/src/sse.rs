//! Event streams (P20).
use crate::core::*;
use crate::mk_exec;
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::sse_parser::*;
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::{Notification, ProgressToken, ServerNotification};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

fn ch(t: &str) -> char {
    match t {
        "CR" => '\r',
        "LF" => '\n',
        "NUL" => '\0',
        "SP" => ' ',
        "u2" => 'é',
        "u3" => '€',
        "u4" => '😀',
        t => t.chars().next().unwrap(),
    }
}
fn tok(c: char) -> String {
    match c {
        '\r' => "CR".into(),
        '\n' => "LF".into(),
        '\0' => "NUL".into(),
        ' ' => "SP".into(),
        'é' => "u2".into(),
        '€' => "u3".into(),
        '😀' => "u4".into(),
        c => c.to_string(),
    }
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|t| ch(t.as_str().unwrap())).collect()
}
fn toks(t: &str) -> Value {
    t.chars().map(tok).collect()
}
fn opt(v: Option<&str>) -> Value {
    v.map_or(json!([]), |v| json!([toks(v)]))
}
// bytes, for the HTTP reader
fn btok(b: u8) -> String {
    match b {
        0x21..=0x7e => (b as char).to_string(),
        b => match b as char {
            '\r' => "CR".into(),
            '\n' => "LF".into(),
            ' ' => "SP".into(),
            _ => format!("b{b}"),
        },
    }
}
fn unbtok(t: &str) -> u8 {
    match t {
        "CR" => b'\r',
        "LF" => b'\n',
        "SP" => b' ',
        t if t.len() == 1 => t.as_bytes()[0],
        t => t[1..].parse().unwrap(),
    }
}
fn note(t: &str) -> String {
    format!("{{\"jsonrpc\":\"2.0\",\"method\":\"notifications/progress\",\"params\":{{\"progressToken\":\"{t}\",\"progress\":1}}}}")
}
fn events(l: &[SseEvent]) -> Value {
    l.iter()
        .map(|e| {
            json!({"id":opt(e.id.as_deref()),"event":opt(e.event.as_deref()),"data":toks(&e.data),
                   "retry":opt(e.retry.map(|n| n.to_string()).as_deref())})
        })
        .collect()
}
struct Sut {
    p: RefCell<SseParser>,
}
impl Sut {
    fn new(_: &Value) -> Rc<Self> {
        Rc::new(Sut { p: RefCell::new(SseParser::new()) })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let mut p = match self.p.try_borrow_mut() {
            Ok(p) => p,
            Err(_) => return kind("panic"),
        };
        match s(&op, "e") {
            "feed" => {
                let l = p.feed(&text(&op["chunk"]));
                json!({"k":"ok","events":events(&l),"last":opt(p.last_event_id())})
            }
            "reset" => {
                p.reset();
                json!({"k":"ok","events":[],"last":opt(p.last_event_id())})
            }
            "write" => {
                let mut st = SseStream::new();
                for e in op["events"].as_array().unwrap() {
                    let mut x = SseEvent::new(text(&e["data"]));
                    if let Some(v) = e["id"].get(0) {
                        x = x.with_id(text(v));
                    }
                    if let Some(v) = e["event"].get(0) {
                        x = x.with_event(text(v));
                    }
                    if let Some(v) = e["retry"].get(0) {
                        x = x.with_retry(text(v).parse().unwrap());
                    }
                    st = st.event(x);
                }
                json!({"k":"ok","events":events(&SseParser::new().feed(&st.build()))})
            }
            e => panic!("op {e}"),
        }
    }
}
/// An HTTP transport that reads its event stream from us.
struct Net {
    peer: RefCell<Option<TcpStream>>,
    t: RefCell<HttpTransport>,
    ms: u64,
}
impl Net {
    async fn new(slow: bool) -> Rc<Self> {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://{}/", l.local_addr().unwrap());
        let t = HttpTransport::new(HttpConfig { base_url: url.parse().unwrap(), sse_endpoint: Some("/events".into()), ..Default::default() });
        let serve = async {
            let (mut s, _) = l.accept().await.unwrap();
            s.set_nodelay(true).unwrap();
            let mut buf = [0; 4096];
            let mut head = Vec::new();
            while !head.windows(4).any(|w| w == b"\r\n\r\n") {
                let n = s.read(&mut buf).await.unwrap();
                head.extend_from_slice(&buf[..n]);
            }
            s.write_all(b"HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nTransfer-Encoding: chunked\r\n\r\n").await.unwrap();
            s
        };
        let (r, s) = tokio::join!(t.connect_sse(), serve);
        r.unwrap();
        Rc::new(Net { peer: RefCell::new(Some(s)), t: RefCell::new(t), ms: if slow { 60 } else { 4 } })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let bytes: Vec<u8> = op["chunk"].as_array().unwrap().iter().map(|t| unbtok(t.as_str().unwrap())).collect();
        let mut s = self.peer.borrow_mut().take().unwrap();
        s.write_all(format!("{:x}\r\n", bytes.len()).as_bytes()).await.unwrap();
        s.write_all(&bytes).await.unwrap();
        s.write_all(b"\r\n").await.unwrap();
        s.flush().await.unwrap();
        *self.peer.borrow_mut() = Some(s);
        let mut got = Vec::new();
        let mut t = self.t.borrow_mut();
        // an event is on its way when the chunk can end one: wait longer for it
        let ends = bytes.iter().any(|b| *b == b'\n' || *b == b'\r');
        let wait = if ends { self.ms * 5 } else { self.ms };
        while let Ok(Ok(m)) = tokio::time::timeout(Duration::from_millis(wait), t.receive()).await {
            let x = match m {
                TransportMessage::Notification(Notification::Server(ServerNotification::Progress(p)))
                | TransportMessage::Notification(Notification::Progress(p)) => match p.progress_token {
                    ProgressToken::String(t) => note(&t),
                    ProgressToken::Number(n) => n.to_string(),
                },
                m => format!("{m:?}"),
            };
            got.push(x.bytes().map(btok).collect::<Vec<_>>());
        }
        json!({"k":"ok","events":got,"last":[]})
    }
}
fn cut<T: Clone>(r: &mut Rng, mut q: &[T]) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    let width = *r.pick(&[1, 2, 4, 10, 60]);
    while !q.is_empty() {
        let n = (1 + r.below(width)).min(q.len());
        out.push(q[..n].to_vec());
        q = &q[n..];
    }
    out
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let init = |api: &str| json!({"e":"init","api":api});
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), false));
            }
        }
        // whole streams of lines, cut anywhere
        "rand" => {
            const BITS: &[&str] = &["x", "SP", "u2", "u3", "u4", ":", "y", "{", "\"", "0", "NUL", "d", "u2", "u4"];
            for _ in 0..o.n {
                let mut q: Vec<String> = Vec::new();
                let ending = r.below(4);
                let lines = 3 + r.below(14);
                for _ in 0..lines {
                    let digits = r.chance(2, 3);
                    let name = *r.pick(&["data", "data", "data", "data", "", "", "", "id", "event", "retry", ":", "da", "Data", "dataa", "u"]);
                    q.extend(name.chars().map(|c| c.to_string()));
                    if !name.is_empty() {
                        if r.chance(7, 8) {
                            q.push(":".into());
                        }
                        if r.chance(1, 2) {
                            q.push("SP".into());
                        }
                        for n in 0..r.below(6) {
                            q.push(if name == "retry" && digits { (n + 1).to_string() } else { r.pick(BITS).to_string() });
                        }
                    }
                    match if ending == 3 { r.below(3) } else { ending } {
                        0 => q.push("LF".into()),
                        1 => q.push("CR".into()),
                        _ => q.extend(["CR".to_string(), "LF".to_string()]),
                    }
                }
                let mut ops: Vec<Value> = cut(&mut r, &q).into_iter().map(|c| json!({"e":"feed","chunk":c})).collect();
                if r.chance(1, 6) {
                    let at = r.below(ops.len());
                    ops.insert(at, json!({"e":"reset"}));
                }
                if r.chance(1, 3) {
                    let bits = |r: &mut Rng, w: &[&str], n: usize| -> Vec<String> { (0..r.below(n)).map(|_| r.pick(w).to_string()).collect() };
                    let evs: Vec<Value> = (0..1 + r.below(4))
                        .map(|_| {
                            let one = |r: &mut Rng| if r.chance(1, 2) { json!([["v", "u3", "1"]]) } else { json!([]) };
                            json!({"id":one(&mut r),"event":one(&mut r),"data":bits(&mut r, &["x","LF","LF","u4","SP",":","y"], 8),
                                   "retry": if r.chance(1,3) { json!([["4","2"]]) } else { json!([]) }})
                        })
                        .collect();
                    ops.push(json!({"e":"write","events":evs}));
                }
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&init("parser"))), init("parser"), ops, false));
            }
        }
        // the same over HTTP: real frames, cut anywhere
        "net" | "slow" => {
            let scripts: Vec<Vec<Value>> = if o.fam == "slow" {
                std::mem::take(&mut o.scripts)
            } else {
                (0..o.n)
                    .map(|_| {
                        let mut q: Vec<u8> = Vec::new();
                        for n in 0..1 + r.below(3) {
                            let nl = *r.pick(&["\n", "\r\n", "\r"]);
                            if r.chance(1, 3) {
                                q.extend(format!(": é{nl}").bytes());
                            }
                            let t = *r.pick(&["é€", "a😀b", "plain", "日本語", "😀😀é"]);
                            q.extend(format!("id: {n}{nl}data: {}{nl}{nl}", note(t)).bytes());
                        }
                        // cuts next to multi-byte characters and line ends, and a few anywhere
                        let mut cuts: Vec<usize> = (1..q.len()).filter(|&k| (q[k] >= 0x80 || q[k - 1] >= 0x80 || q[k - 1] == b'\r') && r.chance(1, 3)).collect();
                        cuts.push(r.below(q.len()).max(1));
                        cuts.push(q.len());
                        cuts.sort_unstable();
                        cuts.dedup();
                        let mut from = 0;
                        let mut sc = vec![init("http")];
                        for c in cuts {
                            sc.push(json!({"e":"feed","chunk":q[from..c].iter().map(|b| btok(*b)).collect::<Vec<_>>()}));
                            from = c;
                        }
                        sc
                    })
                    .collect()
            };
            let slow = o.fam == "slow";
            for sc in scripts {
                plain_rt().block_on(async {
                    let net = Net::new(slow).await;
                    play_seq_n(o, 2_000_000, mk_exec!(net), sc[0].clone(), sc[1..].to_vec(), false).await
                });
            }
        }
        f => panic!("family {f}"),
    }
}
