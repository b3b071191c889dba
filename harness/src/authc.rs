//! The OAuth client and an issuer that may fail (P31): real sockets, virtual time.
use crate::core::*;
use base64::Engine;
use pmcp::client::auth::{OidcDiscoveryClient, TokenExchangeClient};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

const UNIT: u64 = 10;
#[derive(Default)]
struct World {
    plan: Vec<String>,
    tries: usize,
    doc: String,
    seen: Vec<Value>,
    held: Vec<TcpStream>,
    busy: usize,
}
type Shared = Arc<Mutex<World>>;
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let (mut out, mut k) = (vec![], 0);
    while k < b.len() {
        match b[k] {
            b'+' => out.push(b' '),
            b'%' if k + 2 < b.len() => {
                out.push(u8::from_str_radix(&s[k + 1..k + 3], 16).unwrap_or(b'?'));
                k += 2;
            }
            c => out.push(c),
        }
        k += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
async fn serve(mut c: TcpStream, w: Shared) {
    let mut q = Vec::new();
    let mut buf = [0; 4096];
    let (head, body) = loop {
        match c.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => q.extend_from_slice(&buf[..n]),
        }
        w.lock().unwrap().busy += 1;
        if let Some(at) = q.windows(4).position(|x| x == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&q[..at]).into_owned();
            let len: usize = head.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").and_then(|x| x.trim().parse().ok())).unwrap_or(0);
            if q.len() >= at + 4 + len {
                break (head, String::from_utf8_lossy(&q[at + 4..at + 4 + len]).into_owned());
            }
        }
    };
    let field = |f: &str| head.lines().find_map(|l| l.split_once(':').filter(|x| x.0.eq_ignore_ascii_case(f)).map(|x| x.1.trim().to_string())).unwrap_or_default();
    let at: Vec<&str> = head.lines().next().unwrap_or("").split(' ').take(2).collect();
    let form: Vec<Value> = body.split('&').filter(|x| !x.is_empty()).map(|p| p.split_once('=').map_or(json!([decode(p)]), |(a, b)| json!([decode(a), decode(b)]))).collect();
    let auth = field("authorization");
    let auth = match auth.strip_prefix("Basic ").map(|x| base64::engine::general_purpose::STANDARD.decode(x)) {
        Some(Ok(x)) => String::from_utf8_lossy(&x).into_owned(),
        _ => auth,
    };
    let (answer, doc) = {
        let mut w = w.lock().unwrap();
        w.busy += 1;
        w.seen.push(json!({"at":at.join(" "),"form":form,"auth":auth,"accept":field("accept")}));
        let a = w.plan[w.tries.min(w.plan.len() - 1)].clone();
        w.tries += 1;
        (a, w.doc.clone())
    };
    let (status, body) = match answer.as_str() {
        "ok" => ("200 OK", doc),
        "s404" => ("404 Not Found", "network connection timeout".into()),
        "s400" => ("400 Bad Request", "{\"error\":\"invalid_grant\"}".into()),
        "s500" => ("500 Internal Server Error", String::new()),
        "s503ok" | "s500ok" => ("503 Service Unavailable", doc),
        "s204" => ("204 No Content", String::new()),
        "junk" => ("200 OK", "<html>".into()),
        "less" => ("200 OK", "{\"issuer\":\"network\"}".into()),
        "mute" => return w.lock().unwrap().held.push(c),
        // a status, with or without the document
        x if x.starts_with('s') => match STATUS.iter().find(|y| y[..3] == x[1..4]) {
            Some(y) => (*y, if x.ends_with("ok") { doc } else { "CORS network timeout connection".into() }),
            None => return,
        },
        _ => return,
    };
    let _ = c.write_all(format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len()).as_bytes()).await;
    w.lock().unwrap().busy += 1;
}
struct Sut {
    d: Arc<OidcDiscoveryClient>,
    x: Arc<TokenExchangeClient>,
    w: Shared,
    port: u16,
    shut: u16,
    op: Option<tokio::task::JoinHandle<(&'static str, String)>>,
    slow: bool,
}
impl Sut {
    async fn new(c: &Value, slow: bool) -> Sut {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let port = l.local_addr().unwrap().port();
        let w: Shared = Default::default();
        let w2 = w.clone();
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                tokio::spawn(serve(c, w2.clone()));
            }
        });
        // port 1 is not in use
        Sut {
            d: Arc::new(OidcDiscoveryClient::with_settings(i(c, "max") as usize, Duration::from_millis(UNIT * i(c, "delay") as u64))),
            x: Arc::new(TokenExchangeClient::new()),
            w,
            port,
            shut: 1,
            op: None,
            slow,
        }
    }
    /// Lets things happen, until nothing has for a while.
    async fn quiet(&self) {
        let (rounds, us) = if self.slow { (60, 1000) } else { (4, 150) };
        let mut calm = 0;
        while calm < rounds {
            let before = self.w.lock().unwrap().busy;
            settle_n(8).await;
            std::thread::sleep(Duration::from_micros(us));
            settle_n(8).await;
            calm = if self.w.lock().unwrap().busy == before { calm + 1 } else { 0 };
        }
    }
    async fn exec(&mut self, op: &Value) -> Value {
        let e = s(op, "e");
        let plan = |x: &Self, p: Vec<String>| {
            let mut w = x.w.lock().unwrap();
            w.tries = 0;
            w.plan = p;
            w.doc = s(op, "doc").into();
        };
        match e {
            "discover" => {
                let p: Vec<String> = op["plan"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let port = if p[0] == "none" { self.shut } else { self.port };
                plan(self, p);
                let tail = match s(op, "url") {
                    "bare" => "",
                    "slash" => "/",
                    "slashes" => "//",
                    "sub" => "/a/b",
                    _ => "/a/b/",
                };
                let (d, url) = (self.d.clone(), format!("http://127.0.0.1:{port}{tail}"));
                self.op = Some(tokio::spawn(async move {
                    match d.discover(&url).await {
                        Ok(m) => ("got", serde_json::to_string(&m).unwrap()),
                        Err(_) => ("err", String::new()),
                    }
                }));
            }
            "token" => {
                plan(self, vec![s(op, "answer").into()]);
                let (x, url, op) = (self.x.clone(), format!("http://127.0.0.1:{}/token", self.port), op.clone());
                self.op = Some(tokio::spawn(async move {
                    let opt = |f: &str| Some(s(&op, f)).filter(|x| !x.is_empty());
                    let r = if s(&op, "kind") == "code" {
                        x.exchange_code(&url, s(&op, "what"), s(&op, "client"), opt("secret"), s(&op, "back"), opt("proof")).await
                    } else {
                        x.refresh_token(&url, s(&op, "what"), s(&op, "client"), opt("secret"), opt("scope")).await
                    };
                    match r {
                        Ok(m) => ("got", serde_json::to_string(&m).unwrap()),
                        Err(_) => ("err", String::new()),
                    }
                }));
            }
            "drop" => {
                if let Some(h) = self.op.take() {
                    h.abort();
                    let _ = h.await;
                }
            }
            "tick" => {
                for _ in 0..i(op, "d") {
                    tokio::time::advance(Duration::from_millis(UNIT)).await;
                    self.quiet().await;
                }
            }
            e => panic!("op {e}"),
        }
        self.quiet().await;
        let (mut k, mut doc) = ("none", String::new());
        if let Some(h) = &mut self.op {
            k = "wait";
            // an answer that is on its way
            let end = std::time::Instant::now() + Duration::from_millis(if self.slow { 300 } else { 5 });
            while e == "token" && !h.is_finished() && std::time::Instant::now() < end {
                settle_n(8).await;
                std::thread::sleep(Duration::from_micros(100));
            }
            if h.is_finished() {
                (k, doc) = h.await.unwrap_or(("died", String::new()));
                self.op = None;
            }
        }
        json!({"k":k,"doc":doc,"seen":std::mem::take(&mut self.w.lock().unwrap().seen)})
    }
}
fn one<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
/// A document the SDK writes the way it reads it.
fn document(r: &mut Rng) -> String {
    let mut d = json!({"issuer":one(r, &["https://i", "http://é/", "network"]),"authorization_endpoint":"a?b","token_endpoint":"t"});
    for f in ["jwks_uri", "userinfo_endpoint", "registration_endpoint", "revocation_endpoint", "introspection_endpoint"] {
        if r.chance(1, 2) {
            d[f] = json!(format!("{f}{}", r.below(100)));
        }
    }
    d["response_types_supported"] = json!(["code"]);
    d["grant_types_supported"] = json!(if r.chance(1, 2) { vec!["authorization_code", "refresh_token"] } else { vec![] });
    d["scopes_supported"] = json!((0..r.below(3)).map(|x| format!("s{x}")).collect::<Vec<_>>());
    d["token_endpoint_auth_methods_supported"] = json!(["client_secret_basic"]);
    d["code_challenge_methods_supported"] = json!(["S256"]);
    d.to_string()
}
fn tokens(r: &mut Rng) -> String {
    let mut d = json!({"access_token":one(r, &["a", "ü\"", ""]),"token_type":one(r, &["Bearer", "bearer", "x"])});
    if r.chance(1, 2) {
        d["expires_in"] = json!(r.below(10_000));
    }
    if r.chance(1, 2) {
        d["refresh_token"] = json!("r");
    }
    if r.chance(1, 2) {
        d["scope"] = json!("a b");
    }
    d.to_string()
}
const STATUS: &[&str] = &[
    "400 Bad Request", "401 Unauthorized", "403 Forbidden", "405 Method Not Allowed",
    "408 Request Timeout", "409 Conflict", "410 Gone", "412 Precondition Failed", "418 I'm a teapot", "421 Misdirected Request", "425 Too Early",
    "429 Too Many Requests", "451 Unavailable For Legal Reasons", "500 Internal Server Error", "501 Not Implemented", "502 Bad Gateway",
    "503 Service Unavailable", "504 Gateway Timeout", "505 HTTP Version Not Supported", "507 Insufficient Storage", "511 Network Authentication Required", "599 Network Connect Timeout",
];
const FAILS: &[&str] = &["s400ok", "s401", "s403", "s405", "s408", "s409", "s410ok", "s412", "s418", "s421", "s425", "s429", "s451", "s500", "s501", "s502", "s503", "s504", "s504ok", "s505", "s507", "s511", "s599"];
fn random(r: &mut Rng) -> Vec<Value> {
    let mut sc = vec![json!({"e":"init","max":r.below(6),"delay":r.range(1, 9)})];
    let text = |r: &mut Rng| one(r, &["a", "a b", "a&b=c", "é€😀", "100%", "+", "%41", "x=y", "/?#", "\"\\\n"]);
    for _ in 0..4 + r.below(14) {
        sc.push(match r.below(10) {
            0..=2 => {
                let mut p: Vec<&str> = (0..r.below(6)).map(|_| "cut").collect();
                p.push(if r.chance(1, 4) { one(r, FAILS) } else { one(r, &["ok", "ok", "ok", "cut", "mute", "s404", "s500", "s503ok", "junk", "less", "s204"]) });
                if r.chance(1, 10) {
                    p = vec!["none"];
                }
                json!({"e":"discover","url":one(r, &["bare","slash","slashes","sub","subslash"]),"plan":p,"doc":document(r)})
            }
            3..=5 => {
                let secret = if r.chance(1, 2) { "" } else { text(r) };
                json!({"e":"token","kind":one(r, &["code","refresh"]),"what":text(r),"client":one(r, &["c", "é", "a&b", "%"]),"secret":secret,"back":text(r),
                "proof":if r.chance(1, 2) { "" } else { text(r) },"scope":if r.chance(1, 2) { "" } else { text(r) },"answer":if r.chance(1, 6) { one(r, FAILS) } else { one(r, &["ok","ok","ok","s400","s500ok","junk","less","cut"]) },"doc":tokens(r)})
            }
            6 => json!({"e":"drop"}),
            _ => json!({"e":"tick","d":r.range(1, 12)}),
        });
    }
    sc
}
async fn play(sc: &[Value], slow: bool) -> Vec<Value> {
    let mut x = Sut::new(&sc[0], slow).await;
    let mut tr = vec![sc[0].clone()];
    for op in &sc[1..] {
        let mut op = op.clone();
        op.as_object_mut().unwrap().remove("r");
        let e = s(&op, "e");
        if matches!(e, "discover" | "token") && x.op.is_some() || e == "drop" && x.op.is_none() {
            continue;
        }
        // scripts made from the specification name any document
        if op["doc"] == "{\"issuer\":\"i\"}" {
            op["doc"] = json!(if e == "token" { tokens(&mut Rng::new(7)) } else { document(&mut Rng::new(7)) });
        }
        let r = x.exec(&op).await;
        let stop = r["k"] == "died";
        tr.push(ev(&op, r));
        if stop {
            break;
        }
    }
    if let Some(h) = x.op.take() {
        h.abort();
    }
    tr
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scs: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n).map(|_| random(&mut r)).collect(),
        f => panic!("family {f}"),
    };
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    std::thread::scope(|t| {
        for _ in 0..if slow { 4 } else { 12 } {
            t.spawn(|| loop {
                let n = next.fetch_add(1, SeqCst);
                let Some(sc) = scs.get(n) else { break };
                let tr = paused_rt().block_on(play(sc, slow));
                done.lock().unwrap().push((n, tr));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    for (_, tr) in done {
        o.out.put(tr);
    }
}
