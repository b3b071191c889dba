//! Request context driver (spec/Ctx.tla): contexts, their headers and what is current in concurrent work.
use crate::core::*;
use futures::FutureExt;
use pmcp::shared::logging::{CorrelatedLogger, LogEntry};
use pmcp::shared::{ClientInfo, ContextPropagator, RequestContext};
use pmcp::types::RequestId;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, oneshot};

// ---------------------------------------------------------------- what is logged
#[derive(Default)]
struct Seen {
    logs: Vec<(String, String)>,
    spans: Vec<HashMap<String, String>>,
}
thread_local! { static SEEN: RefCell<Seen> = RefCell::default(); }
struct Fields<'a>(&'a mut HashMap<String, String>);
impl tracing::field::Visit for Fields<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.insert(f.name().into(), format!("{v:?}"));
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        self.0.insert(f.name().into(), v.into());
    }
}
struct Listen;
impl tracing::Subscriber for Listen {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("pmcp::shared::logging")
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut f = HashMap::new();
        a.record(&mut Fields(&mut f));
        SEEN.with(|s| {
            s.borrow_mut().spans.push(f);
            tracing::span::Id::from_u64(s.borrow().spans.len() as u64)
        })
    }
    fn record(&self, id: &tracing::span::Id, v: &tracing::span::Record<'_>) {
        SEEN.with(|s| v.record(&mut Fields(&mut s.borrow_mut().spans[id.into_u64() as usize - 1])));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = HashMap::new();
        e.record(&mut Fields(&mut f));
        SEEN.with(|s| s.borrow_mut().logs.push((e.metadata().level().to_string(), f.remove("message").unwrap_or_default())));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

// ---------------------------------------------------------------- pieces of work
type Ack = oneshot::Sender<Value>;
enum Cmd {
    Enter(RequestContext),
    Leave(String),
    Fork(Fiber, Fiber),
    End,
    Do(Box<dyn FnOnce() -> Value + Send>),
}
type Inbox = mpsc::Receiver<(Cmd, Ack)>;
struct Fiber {
    rx: Inbox,
    acks: Arc<Mutex<Option<Ack>>>,
}
/// Carries out commands until the innermost context is left.
fn work(f: &mut Fiber, mine: Arc<tokio::sync::Notify>) -> Pin<Box<dyn Future<Output = ()> + Send + '_>> {
    Box::pin(async move {
        while let Some((c, ack)) = f.rx.recv().await {
            match c {
                Cmd::Enter(c) => {
                    let (acks, stop) = (f.acks.clone(), Arc::new(tokio::sync::Notify::new()));
                    let its = stop.clone();
                    let inner = c.run(async {
                        let _ = ack.send(kind("ok"));
                        work(f, its).await
                    });
                    tokio::select! { _ = AssertUnwindSafe(inner).catch_unwind() => {}, _ = stop.notified() => {} }
                    let ack = acks.lock().unwrap().take();
                    if let Some(a) = ack {
                        let _ = a.send(kind("ok"));
                    }
                }
                Cmd::Leave(how) => {
                    *f.acks.lock().unwrap() = Some(ack);
                    match how.as_str() {
                        "boom" => panic!("boom"),
                        "drop" => {
                            mine.notify_one();
                            return std::future::pending().await;
                        }
                        _ => return,
                    }
                }
                Cmd::Fork(mut g, mut h) => {
                    let _ = ack.send(kind("ok"));
                    tokio::join!(work(&mut g, Default::default()), work(&mut h, Default::default()));
                }
                Cmd::End => {
                    let _ = ack.send(kind("ok"));
                    return;
                }
                Cmd::Do(d) => {
                    let _ = ack.send(guard(d));
                }
            }
        }
    })
}

// ---------------------------------------------------------------- names for generated identifiers
#[derive(Default)]
struct Toks {
    traces: HashMap<String, String>,
    spans: HashMap<String, String>,
}
/// The form in which a 32-digit trace identifier is kept.
fn dashed(t: &str) -> String {
    if t.len() == 32 && t.is_ascii() {
        format!("{}-{}-{}-{}-{}", &t[..8], &t[8..12], &t[12..16], &t[16..20], &t[20..])
    } else {
        t.into()
    }
}
fn head16(t: &str) -> String {
    t.replace('-', "").chars().take(16).collect()
}
impl Toks {
    fn trace(&mut self, raw: &str) -> String {
        let n = self.traces.len();
        self.traces.entry(raw.into()).or_insert_with(|| format!("T{n}")).clone()
    }
    fn span(&mut self, raw: &str) -> String {
        let n = self.spans.len();
        self.spans.entry(head16(raw)).or_insert_with(|| format!("S{n}")).clone()
    }
    fn given(&mut self, parts: &[String]) {
        if parts.len() > 1 {
            self.traces.entry(dashed(&parts[1])).or_insert_with(|| parts[1].clone());
        }
        if parts.len() > 2 {
            self.spans.entry(head16(&parts[2])).or_insert_with(|| parts[2].clone());
        }
    }
    fn view(&mut self, c: &RequestContext) -> Value {
        let mut meta: Vec<Value> = c.metadata.iter().map(|(k, v)| json!([k, v.as_str().map_or(v.to_string(), Into::into)])).collect();
        let mut bag: Vec<Value> = c.baggage.iter().map(|(k, v)| json!([k, v])).collect();
        meta.sort_by_key(|x| x.to_string());
        bag.sort_by_key(|x| x.to_string());
        let client = c.client_info.as_ref().map(client_text);
        json!({"req":req(&c.request_id),"trace":self.trace(&c.trace_id),"span":self.span(&c.span_id),"parent":opt(c.parent_span_id.as_ref().map(|p| self.span(p))),
            "user":opt(c.user_id.clone()),"session":opt(c.session_id.clone()),"client":opt(client),"meta":meta,"bag":bag})
    }
}
fn opt(o: Option<String>) -> Value {
    o.map_or(json!([]), |x| json!([x]))
}
fn req(r: &RequestId) -> Value {
    match r {
        RequestId::Number(n) => json!({"k":"n","v":n.to_string()}),
        RequestId::String(t) => json!({"k":"s","v":t}),
    }
}
fn req_of(v: &Value) -> RequestId {
    match s(v, "k") {
        "n" => RequestId::Number(s(v, "v").parse().unwrap()),
        _ => RequestId::String(s(v, "v").into()),
    }
}
fn client_of(t: &str) -> ClientInfo {
    ClientInfo { client_id: t.into(), version: Some(format!("{t}.v")), ip_address: Some(format!("{t}.ip")), user_agent: Some(format!("{t}.ua")) }
}
fn client_text(c: &ClientInfo) -> String {
    let w = client_of(&c.client_id);
    if c.version == w.version && c.ip_address == w.ip_address && c.user_agent == w.user_agent {
        c.client_id.clone()
    } else {
        format!("{c:?}")
    }
}
fn who(j: &Value, t: &mut Toks) -> Value {
    if j["trace_id"].is_null() && j["span_id"].is_null() && j["request_id"].is_null() && j["user_id"].is_null() && j["session_id"].is_null() {
        return json!([]);
    }
    let text = |k: &str| j[k].as_str().map_or(j[k].to_string(), Into::into);
    let o = |k: &str| if j[k].is_null() { json!([]) } else { json!([text(k)]) };
    let rq = if j["request_id"].is_string() { json!({"k":"s","v":text("request_id")}) } else { json!({"k":"n","v":text("request_id")}) };
    json!([{"req":rq,"trace":t.trace(&text("trace_id")),"span":t.span(&text("span_id")),"user":o("user_id"),"session":o("session_id")}])
}

struct Sut {
    toks: Arc<Mutex<Toks>>,
    ctx: HashMap<String, RequestContext>,
    heads: HashMap<String, HashMap<String, String>>,
    work: HashMap<String, mpsc::Sender<(Cmd, Ack)>>,
    tasks: HashMap<String, tokio::task::JoinHandle<()>>,
    rt: tokio::runtime::Handle,
}
fn fiber() -> (mpsc::Sender<(Cmd, Ack)>, Fiber) {
    let (tx, rx) = mpsc::channel(4);
    (tx, Fiber { rx, acks: Default::default() })
}
impl Sut {
    fn ctx(&mut self, name: &str, c: RequestContext) -> Value {
        let v = self.toks.lock().unwrap().view(&c);
        self.ctx.insert(name.into(), c);
        json!({"k":"ctx","ctx":v})
    }
    async fn tell(&self, f: &str, c: Cmd) -> Value {
        let (tx, rx) = oneshot::channel();
        if self.work[f].send((c, tx)).await.is_err() {
            return kind("gone");
        }
        match tokio::time::timeout(std::time::Duration::from_secs(20), rx).await {
            Ok(Ok(v)) => v,
            Ok(Err(_)) => kind("gone"),
            Err(_) => kind("hung"),
        }
    }
    async fn exec(&mut self, op: &Value) -> Value {
        let name = |k: &str| s(op, k).to_string();
        match s(op, "e") {
            "new" => {
                let c = RequestContext::new(req_of(&op["req"]));
                self.ctx(s(op, "c"), c)
            }
            "child" => {
                let c = self.ctx[s(op, "c")].child();
                self.ctx(s(op, "d"), c)
            }
            "with" => {
                let (c, v) = (self.ctx[s(op, "c")].clone(), name("v"));
                let c = match s(op, "what") {
                    "user" => c.with_user_id(v),
                    "session" => c.with_session_id(v),
                    "client" => c.with_client_info(client_of(&v)),
                    "meta" => c.with_metadata(name("key"), json!(v)),
                    _ => c.with_baggage(name("key"), v),
                };
                self.ctx(s(op, "c"), c)
            }
            "out" => {
                let c = self.ctx[s(op, "c")].clone();
                let mut h = HashMap::new();
                let r = guard(|| {
                    h = ContextPropagator::inject(&c);
                    kind("ok")
                });
                if r["k"] != "ok" {
                    return r;
                }
                let mut t = self.toks.lock().unwrap();
                let mut tp: Vec<String> = h.get("traceparent").map_or(vec![], |x| x.split('-').map(Into::into).collect());
                if tp.len() == 4 {
                    tp[1] = t.trace(&dashed(&tp[1]));
                    tp[2] = t.span(&tp[2]);
                }
                let mut rest: Vec<Value> = h.iter().filter(|x| x.0 != "traceparent").map(|x| json!([x.0, x.1])).collect();
                rest.sort_by_key(|x| x.to_string());
                self.heads.insert(name("h"), h);
                json!({"k":"heads","heads":{"tp":tp,"rest":rest}})
            }
            "given" => {
                let tp: Vec<String> = serde_json::from_value(op["tp"].clone()).unwrap();
                let mut h: HashMap<String, String> = op["rest"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into())).collect();
                if !tp.is_empty() {
                    h.insert("traceparent".into(), tp.join("-"));
                    self.toks.lock().unwrap().given(&tp);
                }
                self.heads.insert(name("h"), h);
                kind("ok")
            }
            "in" => {
                let h = self.heads[s(op, "h")].clone();
                let mut c = None;
                let r = guard(|| {
                    c = ContextPropagator::extract(&h);
                    kind("nothing")
                });
                match c {
                    Some(c) => self.ctx(s(op, "c"), c),
                    None => r,
                }
            }
            "begin" => {
                let (tx, mut f) = fiber();
                self.work.insert(name("f"), tx);
                self.tasks.insert(name("f"), self.rt.spawn(async move { work(&mut f, Default::default()).await }));
                kind("ok")
            }
            "enter" => {
                let c = self.ctx[s(op, "c")].clone();
                self.tell(s(op, "f"), Cmd::Enter(c)).await
            }
            "leave" => self.tell(s(op, "f"), Cmd::Leave(name("how"))).await,
            "fork" => {
                let (gt, g) = fiber();
                let (ht, h) = fiber();
                self.work.insert(name("g"), gt);
                self.work.insert(name("h"), ht);
                self.tell(s(op, "f"), Cmd::Fork(g, h)).await
            }
            "end" => self.tell(s(op, "f"), Cmd::End).await,
            "drop" => {
                if let Some(t) = self.tasks.remove(s(op, "f")) {
                    t.abort();
                    let _ = t.await;
                }
                kind("ok")
            }
            "cur" => {
                let toks = self.toks.clone();
                let d = move || {
                    let mut t = toks.lock().unwrap();
                    let c = RequestContext::current();
                    let log = serde_json::to_value(LogEntry::new("info", "m")).unwrap();
                    SEEN.with(|s| s.borrow_mut().spans.clear());
                    let both = [Some(CorrelatedLogger::new("op")), c.as_ref().map(|c| CorrelatedLogger::from_context("op", c))];
                    let spans = SEEN.with(|s| std::mem::take(&mut s.borrow_mut().spans));
                    drop(both);
                    let mut said: Vec<Value> = spans
                        .iter()
                        .map(|f| {
                            let mut j = json!(f);
                            // the identifier's kind is not told by its text
                            if let (Some(c), Some(id)) = (&c, f.get("request_id")) {
                                if *id == c.request_id.to_string() {
                                    j["request_id"] = serde_json::to_value(&c.request_id).unwrap();
                                }
                            }
                            who(&j, &mut t)
                        })
                        .collect();
                    said.dedup();
                    let span = if said.len() == 1 { said.remove(0) } else { json!(["differ", said]) };
                    json!({"k":"cur","cur":c.map_or(json!([]), |c| json!([t.view(&c)])),"log":who(&log, &mut t),"span":span})
                };
                self.tell(s(op, "f"), Cmd::Do(Box::new(d))).await
            }
            "either" => {
                let rq = req_of(&op["req"]);
                let got: Arc<Mutex<Option<RequestContext>>> = Default::default();
                let g = got.clone();
                let d = move || {
                    *g.lock().unwrap() = Some(pmcp::context_or_new!(rq));
                    kind("ok")
                };
                let r = self.tell(s(op, "f"), Cmd::Do(Box::new(d))).await;
                let c = got.lock().unwrap().take();
                match c {
                    Some(c) => self.ctx(s(op, "c"), c),
                    None => r,
                }
            }
            "log" => {
                let (toks, level, text) = (self.toks.clone(), name("level"), name("text"));
                let fields: Vec<(String, String)> = serde_json::from_value(op["fields"].clone()).unwrap();
                let d = move || {
                    SEEN.with(|s| s.borrow_mut().logs.clear());
                    fields.into_iter().fold(LogEntry::new(level, text), |e, (k, v)| e.with_field(k, json!(v))).log();
                    let logs = SEEN.with(|s| std::mem::take(&mut s.borrow_mut().logs));
                    let [(at, j)] = &logs[..] else { return json!({"k":"logs","n":logs.len()}) };
                    let j: Value = serde_json::from_str(j).unwrap_or_default();
                    let mut fs: Vec<Value> = j["fields"].as_object().unwrap_or(&Map::new()).iter().map(|(k, v)| json!([k, v])).collect();
                    fs.sort_by_key(|x| x.to_string());
                    json!({"k":"log","at":at,"level":j["level"].as_str().unwrap_or("?"),"text":j["message"].as_str().unwrap_or("?"),"fields":fs,"who":who(&j, &mut toks.lock().unwrap())})
                };
                self.tell(s(op, "f"), Cmd::Do(Box::new(d))).await
            }
            e => panic!("{e}"),
        }
    }
}

fn play(o: &mut Opts, sc: Vec<Value>) {
    let rt = if i(&sc[0], "threads") == 1 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
    };
    let mut x = Sut { toks: Default::default(), ctx: HashMap::new(), heads: HashMap::new(), work: HashMap::new(), tasks: HashMap::new(), rt: rt.handle().clone() };
    let tr = rt.block_on(async {
        let mut tr = vec![sc[0].clone()];
        for op in &sc[1..] {
            let r = x.exec(op).await;
            let stop = matches!(s(&r, "k"), "gone" | "hung" | "panic");
            tr.push(ev(op, r));
            if stop {
                break;
            }
        }
        tr
    });
    rt.shutdown_background();
    o.out.put(tr);
}

// ---------------------------------------------------------------- random histories
fn random(r: &mut Rng) -> Vec<Value> {
    let mut sc = vec![json!({"e":"init","threads":r.range(1, 2)})];
    let mut ctx: Vec<String> = vec![];
    let mut heads: Vec<String> = vec![];
    struct W {
        f: String,
        depth: usize,
        base: usize,
        kids: Vec<String>,
        of: Option<String>,
    }
    let mut ws: Vec<W> = vec![];
    let mut n = 0;
    let vals = ["u1", "", "ü€😀", "a b", "x=y;z", "7", "l\nm"];
    let keys = ["k", "tenant", "Key-2", "é", "", "baggage-k"];
    let ids = ["7", "-3", "0", "abc", "007", "+5", "", " 5", "-0", "1e3", "123456789012345678", "123456789012345678901234567890", "é", "9-9"];
    while sc.len() < 25 {
        n += 1;
        let name = |p: &str, r: &mut Rng| format!("{p}{}", r.below(6));
        let rq = |r: &mut Rng| if r.chance(1, 3) { json!({"k":"n","v":*r.pick(&["7", "-3", "0", "123456789012345678"])}) } else { json!({"k":"s","v":*r.pick(&ids)}) };
        let free: Vec<usize> = (0..ws.len()).filter(|x| ws[*x].kids.is_empty()).collect();
        let op = match r.below(20) {
            0 => {
                let c = name("c", r);
                ctx.push(c.clone());
                json!({"e":"new","c":c,"req":rq(r)})
            }
            1..=2 if !ctx.is_empty() => {
                let (c, d) = (r.pick(&ctx).clone(), name("c", r));
                ctx.push(d.clone());
                json!({"e":"child","c":c,"d":d})
            }
            3..=6 if !ctx.is_empty() => json!({"e":"with","c":r.pick(&ctx),"what":*r.pick(&["user","session","client","meta","bag","bag"]),"key":*r.pick(&keys),"v":*r.pick(&vals)}),
            7 if !ctx.is_empty() => {
                let h = name("h", r);
                heads.push(h.clone());
                json!({"e":"out","c":r.pick(&ctx),"h":h})
            }
            8 => {
                let h = name("h", r);
                heads.push(h.clone());
                let traces = ["4bf92f3577b34da6a3ce929d0e0e4736", "4BF92F3577B34DA6A3CE929D0E0E4736", "abc", "", "é2345678901234567890123456789012"[..32].trim_end(), "00000000000000000000000000000000", "1234567é01234567890123456789012", "ÄÄÄÄÄÄÄÄÄÄÄÄÄÄÄÄ"];
                let spans = ["00f067aa0ba902b7", "ff", "", "éÄÄÄÄÄÄÄ", "1234567é0123456", "0123456789abcdef0123", "00F067AA0BA902B7"];
                let mut tp = vec![r.pick(&["00", "01", "é"]).to_string(), r.pick(&traces).to_string(), r.pick(&spans).to_string(), "01".into(), "x".into(), "".into()];
                tp.truncate(*r.pick(&[4, 4, 4, 4, 4, 4, 5, 6, 3, 2, 1, 0]));
                let rest: Vec<Value> = [json!(["x-request-id", *r.pick(&ids)]), json!(["x-user-id", *r.pick(&vals)]), json!(["x-session-id", *r.pick(&vals)]), json!(["baggage-k", *r.pick(&vals)]), json!(["baggage-", *r.pick(&vals)]), json!(["baggage-baggage-k", "v"]), json!(["accept", "x"]), json!(["baggage", "z"]), json!(["xbaggage-k", "z"])]
                    .into_iter()
                    .filter(|_| r.chance(1, 2))
                    .collect();
                json!({"e":"given","h":h,"tp":tp,"rest":rest})
            }
            9..=10 if !heads.is_empty() => {
                let c = name("c", r);
                let h = r.pick(&heads).clone();
                // what has too few parts gives no context
                let bad = sc.iter().rev().find(|q| q["h"] == json!(h) && q["e"] != "in").is_some_and(|q| q["e"] == "given" && q["tp"].as_array().unwrap().len() < 4);
                if !bad {
                    ctx.push(c.clone());
                }
                json!({"e":"in","h":h,"c":c})
            }
            11 if ws.len() < 4 => {
                let f = format!("f{n}");
                ws.push(W { f: f.clone(), depth: 0, base: 0, kids: vec![], of: None });
                json!({"e":"begin","f":f})
            }
            12..=14 if !free.is_empty() && !ctx.is_empty() => {
                let w = *r.pick(&free);
                ws[w].depth += 1;
                json!({"e":"enter","f":ws[w].f,"c":r.pick(&ctx)})
            }
            15 if !free.is_empty() => {
                let w = *r.pick(&free);
                if ws[w].depth > ws[w].base {
                    ws[w].depth -= 1;
                    json!({"e":"leave","f":ws[w].f,"how":*r.pick(&["ok","boom","drop"])})
                } else if r.chance(1, 2) && ws[w].of.is_some() {
                    let x = ws.remove(w);
                    for y in &mut ws {
                        y.kids.retain(|k| *k != x.f);
                    }
                    json!({"e":"end","f":x.f})
                } else {
                    continue;
                }
            }
            16 if !free.is_empty() && ws.len() < 6 => {
                let w = *r.pick(&free);
                let (g, h, d, f) = (format!("g{n}"), format!("h{n}"), ws[w].depth, ws[w].f.clone());
                ws[w].kids = vec![g.clone(), h.clone()];
                for k in [&g, &h] {
                    ws.push(W { f: k.clone(), depth: d, base: d, kids: vec![], of: Some(f.clone()) });
                }
                json!({"e":"fork","f":f,"g":g,"h":h})
            }
            17 if !free.is_empty() => {
                let c = name("c", r);
                ctx.push(c.clone());
                json!({"e":"either","f":ws[*r.pick(&free)].f,"c":c,"req":rq(r)})
            }
            18 if !free.is_empty() => {
                let fields: Vec<Value> = [json!(["a", *r.pick(&vals)]), json!(["level", "x"])].into_iter().filter(|_| r.chance(1, 2)).collect();
                json!({"e":"log","f":ws[*r.pick(&free)].f,"level":*r.pick(&["trace","debug","info","warn","error","TRACE","Debug","WARN","Error","notice",""]),"text":*r.pick(&vals),"fields":fields})
            }
            _ if !free.is_empty() => json!({"e":"cur","f":ws[*r.pick(&free)].f}),
            _ => continue,
        };
        sc.push(op);
    }
    sc
}
pub fn run(o: &mut Opts) {
    tracing::subscriber::set_global_default(Listen).expect("subscriber");
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc);
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let sc = random(&mut r);
                play(o, sc);
            }
        }
        f => panic!("family {f}"),
    }
}
