//! The stdio transport (P21). It owns the process's standard streams, so each script gets a child process
//! that holds the transport and takes its orders over a socket.
use crate::core::*;
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::{JSONRPCResponse, Notification, Request};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- the child
/// A message without the parts that do not matter: what is equal here is the same message.
fn plain(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut k: Vec<_> = o.keys().filter(|k| !o[*k].is_null()).collect();
            k.sort();
            Value::Object(k.into_iter().map(|k| (k.clone(), plain(&o[k]))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        v => v.clone(),
    }
}
fn essence(v: &Value) -> String {
    let (p, none) = (plain(&v["params"]), json!({}));
    json!({"id":v["id"],"method":v["method"],"params":if p == none { Value::Null } else { p },"result":v["result"]}).to_string()
}
/// What the SDK says a message is.
fn text(m: &TransportMessage) -> String {
    let of = |v: Result<Value, serde_json::Error>, id: Value| {
        let mut v = v.unwrap_or(Value::Null);
        if !id.is_null() {
            v["id"] = id;
        }
        essence(&v)
    };
    match m {
        TransportMessage::Response(JSONRPCResponse { id, payload: ResponsePayload::Result(r), .. }) => essence(&json!({"id":id,"result":r})),
        TransportMessage::Request { id, request: Request::Client(c) } => of(serde_json::to_value(c), json!(id)),
        TransportMessage::Request { id, request: Request::Server(c) } => of(serde_json::to_value(c), json!(id)),
        TransportMessage::Notification(n) => of(serde_json::to_value(n), Value::Null),
        m => format!("{m:?}"),
    }
}
/// The message a JSON text stands for, made without the SDK's parser of messages.
fn message(v: &Value) -> TransportMessage {
    let body = json!({"method":v["method"],"params":v["params"]});
    if v.get("method").is_none() {
        TransportMessage::Response(serde_json::from_value(v.clone()).unwrap())
    } else if v.get("id").is_some() {
        let id = serde_json::from_value(v["id"].clone()).unwrap();
        TransportMessage::Request { id, request: Request::Client(Box::new(serde_json::from_value(body).unwrap())) }
    } else {
        TransportMessage::Notification(Notification::Server(serde_json::from_value(body).unwrap()))
    }
}
/// Orders, one per line: recv, drop, close, up, send JSON. Reports, one per line.
pub fn child(port: &str) {
    use tokio::io::{AsyncBufReadExt, AsyncWriteExt};
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let s = tokio::net::TcpStream::connect(format!("127.0.0.1:{port}")).await.unwrap();
        s.set_nodelay(true).unwrap();
        let (r, w) = s.into_split();
        let mut r = tokio::io::BufReader::new(r).lines();
        let w = Arc::new(tokio::sync::Mutex::new(w));
        let t = Arc::new(tokio::sync::Mutex::new(StdioTransport::new()));
        let mut pending: Option<tokio::task::JoinHandle<()>> = None;
        while let Ok(Some(l)) = r.next_line().await {
            let say = |x: Value| {
                let w = w.clone();
                async move {
                    let _ = w.lock().await.write_all(format!("{x}\n").as_bytes()).await;
                }
            };
            match l.as_str() {
                "recv" => {
                    let (t, w) = (t.clone(), w.clone());
                    pending = Some(tokio::spawn(async move {
                        let mut t = t.lock().await;
                        let out = t.receive().await;
                        let x = match out {
                            Ok(m) => json!({"k":"got","m":text(&m),"up":t.is_connected()}),
                            Err(_) => json!({"k":"err","m":"","up":t.is_connected()}),
                        };
                        let _ = w.lock().await.write_all(format!("{x}\n").as_bytes()).await;
                    }));
                }
                "drop" => {
                    if let Some(p) = pending.take() {
                        p.abort();
                        let _ = p.await;
                    }
                    say(json!({"k":"ok","m":"","up":t.lock().await.is_connected()})).await
                }
                "close" => {
                    let mut t = t.lock().await;
                    let ok = t.close().await.is_ok();
                    say(json!({"k":if ok { "ok" } else { "err" },"m":"","up":t.is_connected()})).await
                }
                "up" => say(json!({"k":"ok","m":"","up":t.lock().await.is_connected()})).await,
                l => {
                    let v: Value = serde_json::from_str(&l[5..]).unwrap();
                    let m = message(&v);
                    let mut t = t.lock().await;
                    let ok = t.send(m).await.is_ok();
                    say(json!({"k":if ok { "ok" } else { "err" },"m":"","up":t.is_connected()})).await
                }
            }
        }
    });
    std::process::exit(0)
}

// ---------------------------------------------------------------- the driver
fn byte(t: &str) -> u8 {
    match t {
        "CR" => b'\r',
        "LF" => b'\n',
        "SP" => b' ',
        "TAB" => b'\t',
        t if t.len() == 1 => t.as_bytes()[0],
        t => u8::from_str_radix(&t[1..], 16).unwrap(),
    }
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|t| byte(t.as_str().unwrap())).collect()
}
fn tokens(b: &[u8]) -> Value {
    let t = |b: &u8| match b {
        b'\r' => "CR".into(),
        b'\n' => "LF".into(),
        b' ' => "SP".into(),
        b'\t' => "TAB".into(),
        33..=126 => (*b as char).to_string(),
        b => format!("x{b:02x}"),
    };
    Value::Array(b.iter().map(|b| json!(t(b))).collect())
}
/// What arrives at the driver: reports of the child, and bytes it writes.
enum Seen {
    Report(Value),
    Wrote(Vec<u8>),
    Gone,
}
struct Sut {
    child: Child,
    stdin: Option<ChildStdin>,
    ctl: TcpStream,
    seen: Receiver<Seen>,
    wrote: Vec<u8>,
    pending: bool,
    ms: u64,
    /// the messages by name: what they say, and their JSON
    msgs: Vec<(String, String, Value)>,
}
impl Sut {
    fn new(c: &Value, slow: bool) -> Sut {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["stdio-child", &l.local_addr().unwrap().port().to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let (ctl, _) = l.accept().unwrap();
        ctl.set_nodelay(true).unwrap();
        let (tx, seen) = channel();
        let (mut out, tx2, rep) = (child.stdout.take().unwrap(), tx.clone(), BufReader::new(ctl.try_clone().unwrap()));
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = out.read(&mut b) {
                if n == 0 || tx2.send(Seen::Wrote(b[..n].to_vec())).is_err() {
                    break;
                }
            }
        });
        std::thread::spawn(move || {
            for l in rep.lines() {
                let Ok(l) = l else { break };
                if tx.send(Seen::Report(serde_json::from_str(&l).unwrap_or(json!({"k":"odd"})))).is_err() {
                    return;
                }
            }
            let _ = tx.send(Seen::Gone);
        });
        let msgs = c["msgs"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(k, v)| {
                let v: Value = serde_json::from_slice(&bytes(v)).unwrap();
                (k.clone(), essence(&v), v)
            })
            .collect();
        Sut { stdin: child.stdin.take(), child, ctl, seen, wrote: vec![], pending: false, ms: if slow { 600 } else { 25 }, msgs }
    }
    fn order(&mut self, l: &str) {
        let _ = self.ctl.write_all(format!("{l}\n").as_bytes());
    }
    /// The next report, if there is one in time.
    fn report(&mut self, ms: u64) -> Option<Value> {
        let until = std::time::Instant::now() + Duration::from_millis(ms);
        loop {
            match self.seen.recv_timeout(until.saturating_duration_since(std::time::Instant::now())) {
                Ok(Seen::Report(v)) => return Some(v),
                Ok(Seen::Wrote(b)) => self.wrote.extend(b),
                Ok(Seen::Gone) | Err(RecvTimeoutError::Disconnected) => return Some(kind("died")),
                Err(RecvTimeoutError::Timeout) => return None,
            }
        }
    }
    fn name(&self, t: &str) -> String {
        self.msgs.iter().find(|m| m.1 == t).map_or(if t.is_empty() { "none" } else { "odd" }.into(), |m| m.0.clone())
    }
    /// Takes whole frames off what was written; a rest is a frame of its own, with an odd length.
    fn frames(&mut self) -> Value {
        let mut out = vec![];
        while !self.wrote.is_empty() {
            let w = &self.wrote;
            let Some(at) = w.windows(4).position(|x| x == b"\r\n\r\n") else {
                out.push(json!({"m":"odd","announced":-1,"actual":w.len(),"headers":0}));
                self.wrote.clear();
                break;
            };
            let head = String::from_utf8_lossy(&w[..at]).into_owned();
            let lens: Vec<usize> = head.lines().filter_map(|l| l.strip_prefix("Content-Length: ")?.parse().ok()).collect();
            let announced = lens.first().copied().unwrap_or(0);
            let body = &w[at + 4..];
            // the body goes as far as the JSON does
            let mut de = serde_json::Deserializer::from_slice(body).into_iter::<Value>();
            let v = de.next();
            let actual = de.byte_offset();
            let m = match &v {
                Some(Ok(v)) if v["jsonrpc"] == "2.0" => self.name(&essence(v)),
                _ => "odd".into(),
            };
            out.push(json!({"m":m,"announced":announced,"actual":actual,"headers":lens.len()}));
            let end = (at + 4 + actual.max(announced)).min(w.len());
            self.wrote.drain(..end);
        }
        json!(out)
    }
    fn step(&mut self, op: &Value) -> Value {
        let mut sent = false;
        let r = match s(op, "e") {
            "feed" | "eof" => {
                if s(op, "e") == "eof" {
                    self.stdin = None;
                } else if let Some(p) = self.stdin.as_mut() {
                    let _ = p.write_all(&bytes(&op["b"]));
                    let _ = p.flush();
                }
                if self.pending {
                    self.report(self.ms).inspect(|_| self.pending = false).unwrap_or_else(|| kind("wait"))
                } else {
                    self.order("up");
                    self.report(5000).unwrap_or_else(|| kind("hang"))
                }
            }
            "recv" => {
                self.order("recv");
                let r = self.report(self.ms);
                self.pending = r.is_none();
                r.unwrap_or_else(|| kind("wait"))
            }
            e => {
                sent = e == "send";
                if e == "drop" {
                    self.pending = false;
                }
                let line = if sent { format!("send {}", self.msgs.iter().find(|m| m.0 == s(op, "m")).unwrap().2) } else { e.to_string() };
                self.order(&line);
                self.report(5000).unwrap_or_else(|| kind("hang"))
            }
        };
        let mut r = r;
        if sent && r["k"] == "ok" {
            // a frame is written whole: wait for it
            let until = std::time::Instant::now() + Duration::from_millis(2000);
            while self.wrote.is_empty() && std::time::Instant::now() < until {
                if let Ok(Seen::Wrote(b)) = self.seen.recv_timeout(Duration::from_millis(20)) {
                    self.wrote.extend(b);
                }
            }
            while let Ok(Seen::Wrote(b)) = self.seen.recv_timeout(Duration::from_millis(if self.ms > 100 { 100 } else { 2 })) {
                self.wrote.extend(b);
            }
        }
        let m = self.name(r["m"].as_str().unwrap_or(""));
        r["m"] = json!(m);
        if r.get("up").is_none() {
            r["up"] = json!(true);
        }
        r["out"] = self.frames();
        r
    }
}
impl Drop for Sut {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn play(sc: &[Value], slow: bool) -> Vec<Value> {
    let mut x = Sut::new(&sc[0], slow);
    let mut tr = vec![sc[0].clone()];
    for op in &sc[1..] {
        let mut op = op.clone();
        op.as_object_mut().unwrap().remove("r");
        // only one operation of a transport at a time
        if matches!(s(&op, "e"), "recv" | "send" | "close") && x.pending || s(&op, "e") == "drop" && !x.pending {
            continue;
        }
        let r = x.step(&op);
        let stop = r["k"] == "died" || r["k"] == "hang";
        tr.push(ev(&op, r));
        if stop {
            break;
        }
    }
    tr
}
fn random(r: &mut Rng) -> Vec<Value> {
    let ids = [json!(1), json!("é→😀"), json!(-7), json!("x\\\"y")];
    let msgs: Vec<(String, Vec<u8>)> = (0..3 + r.below(2))
        .map(|n| {
            let body = match r.below(6) {
                0 => json!({"jsonrpc":"2.0","id":ids[n],"method":"tools/call","params":{"name":"é","arguments":{"n":n}}}),
                1 => json!({"jsonrpc":"2.0","method":"notifications/resources/updated","params":{"uri":format!("file:///é{n}")}}),
                2 => json!({"jsonrpc":"2.0","id":ids[n],"result":{"t":"ü\n","n":[n, {"id":1}]}}),
                _ => json!({"jsonrpc":"2.0","id":ids[n],"result":n}),
            };
            (format!("m{n}"), body.to_string().into_bytes())
        })
        .collect();
    let c = json!({"e":"init","msgs":msgs.iter().map(|(k, b)| (k.clone(), tokens(b))).collect::<serde_json::Map<_, _>>()});
    // the input: frames, good and bad
    let mut input = vec![];
    let nl = |r: &mut Rng| if r.chance(3, 4) { "\r\n" } else { "\n" };
    for _ in 0..1 + r.below(5) {
        let b = &r.pick(&msgs).1.clone();
        let mut head = String::new();
        if r.chance(1, 4) {
            head += r.pick(&["Content-Type: application/json", "Content-Length: 999", "X:", "Content-Length: abc", "{}", "Content-Length:"]);
            head += nl(r);
        }
        match r.below(12) {
            0 => {}
            1 => head += &format!("Content-Length: {}{}", b.len() - 1 - r.below(3), nl(r)),
            2 => head += &format!("Content-Length: {}{}", b.len() + 1 + r.below(3), nl(r)),
            3 => head += &format!("Content-Length: {}{}", r.pick(&["0", "00040", "123456789012345678", "18446744073709551615", "999999999999999999999999"]), nl(r)),
            _ => head += &format!("Content-Length: {}{}", b.len(), nl(r)),
        }
        if r.chance(1, 6) {
            head += r.pick(&["Content-Type: x", "x-é: ü", "\u{1}"]);
            head += nl(r);
        }
        head += nl(r);
        input.extend(head.into_bytes());
        match r.below(10) {
            0 => input.extend(b"{\"jsonrpc\":\"2.0\",\"id\":1}"),
            1 => input.extend([0xff, b'\n']),
            _ => input.extend(b),
        }
    }
    let mut ops = vec![c];
    let mut at = 0;
    while at < input.len() {
        match r.below(10) {
            0..=3 => {
                let most = if r.chance(1, 2) { 8 } else { 120 };
                let n = 1 + r.below(most);
                let end = (at + n).min(input.len());
                ops.push(json!({"e":"feed","b":tokens(&input[at..end])}));
                at = end;
            }
            4..=6 => ops.push(json!({"e":"recv"})),
            7 | 8 => ops.push(json!({"e":"drop"})),
            _ => ops.push(json!({"e":"send","m":r.pick(&msgs).0})),
        }
        if r.chance(1, 60) {
            ops.push(json!({"e":"close"}));
        }
    }
    for _ in 0..r.below(4) {
        ops.push(json!({"e":"recv"}));
    }
    ops.push(json!({"e":"eof"}));
    for _ in 0..r.below(5) {
        ops.push(if r.chance(1, 4) { json!({"e":"send","m":"m0"}) } else { json!({"e":"recv"}) });
    }
    ops.truncate(40);
    ops
}
pub fn run(o: &mut Opts) {
    let slow = o.fam == "slow";
    let mut r = Rng::new(o.seed);
    let scs: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n).map(|_| random(&mut r)).collect(),
        f => panic!("family {f}"),
    };
    let next = AtomicUsize::new(0);
    let done: std::sync::Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    std::thread::scope(|t| {
        for _ in 0..if slow { 4 } else { 12 } {
            t.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                let Some(sc) = scs.get(n) else { break };
                let tr = play(sc, slow);
                done.lock().unwrap().push((n, tr));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    for (_, tr) in done {
        o.out.put(tr);
    }
}
