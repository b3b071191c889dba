//! The server's small managers: cancellation, subscriptions, roots, elicitation.
use crate::core::*;
use async_trait::async_trait;
use pmcp::server::cancellation::{CancellationManager, RequestHandlerExtra};
use pmcp::server::elicitation::{ElicitInput, ElicitationContext, ElicitationManager};
use pmcp::server::roots::RootsManager;
use pmcp::server::subscriptions::SubscriptionManager;
use pmcp::server::ToolHandler;
use pmcp::shared::batch::BatchRequest;
use pmcp::types::elicitation::*;
use pmcp::types::*;
use pmcp::{Result, Server};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, oneshot};

pub type Log = Arc<Mutex<Vec<Value>>>;
fn drain(l: &Log) -> Vec<Value> {
    l.lock().unwrap().drain(..).collect()
}

// ---------------------------------------------------------------- cancellation
struct CancelTool {
    extras: Arc<Mutex<Vec<RequestHandlerExtra>>>,
    gates: Arc<Mutex<Vec<oneshot::Sender<()>>>>,
}
#[async_trait]
impl ToolHandler for CancelTool {
    async fn handle(&self, _a: Value, x: RequestHandlerExtra) -> Result<Value> {
        let (tx, rx) = oneshot::channel();
        self.extras.lock().unwrap().push(x);
        self.gates.lock().unwrap().push(tx);
        let _ = rx.await;
        Ok(json!(1))
    }
}
struct CancelSut {
    m: CancellationManager,
    server: Arc<Server>,
    api: String,
    handles: Arc<Mutex<Vec<RequestHandlerExtra>>>,
    gates: Arc<Mutex<Vec<oneshot::Sender<()>>>>,
    notes: Log,
}
impl CancelSut {
    fn new(c: &Value) -> Rc<Self> {
        let notes: Log = Default::default();
        let n2 = notes.clone();
        let mut m = CancellationManager::new();
        m.set_notification_sender(Arc::new(move |n| {
            let v = match n {
                Notification::Client(ClientNotification::Cancelled(c)) => json!([c.request_id.to_string(), c.reason.unwrap_or_default()]),
                n => json!([format!("{n:?}"), ""]),
            };
            n2.lock().unwrap().push(v);
        }));
        let handles: Arc<Mutex<Vec<RequestHandlerExtra>>> = Default::default();
        let gates: Arc<Mutex<Vec<oneshot::Sender<()>>>> = Default::default();
        let t = CancelTool { extras: handles.clone(), gates: gates.clone() };
        let server = Arc::new(Server::builder().name("s").version("1").tool("t", t).build().unwrap());
        Rc::new(CancelSut { m, server, api: s(c, "api").into(), handles, gates, notes })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let srv = self.api == "server";
        match s(&op, "e") {
            "create" if srv => {
                let rq = JSONRPCRequest::new(RequestId::from(s(&op, "id")), "tools/call", Some(json!({"name":"t","arguments":{}})));
                let server = self.server.clone();
                let n = self.handles.lock().unwrap().len();
                tokio::spawn(async move { server.handle_batch_request(BatchRequest::Single(rq)).await.map(|_| ()) });
                settle_n(10).await;
                let k = self.handles.lock().unwrap().len();
                json!({"k": if k == n + 1 {"ok"} else {"odd"}, "h":k})
            }
            "cancel" if srv => {
                self.server.cancel_request(s(&op, "id").into(), Some(s(&op, "why").into())).await.unwrap();
                kind("ok")
            }
            "finish" => {
                let h = i(&op, "h") as usize;
                let tx = std::mem::replace(&mut self.gates.lock().unwrap()[h - 1], oneshot::channel().0);
                let _ = tx.send(());
                settle_n(10).await;
                kind("ok")
            }
            "create" => {
                let t = self.m.create_token(s(&op, "id").into()).await;
                let mut g = self.handles.lock().unwrap();
                g.push(RequestHandlerExtra::new("".into(), t));
                json!({"k":"ok","h":g.len()})
            }
            "cancel" => {
                self.m.cancel_request(s(&op, "id").into(), Some(s(&op, "why").into())).await.unwrap();
                kind("ok")
            }
            "drop" => {
                self.m.remove_token(s(&op, "id")).await;
                kind("ok")
            }
            "get" => match self.m.get_token(s(&op, "id")).await {
                Some(t) => {
                    let mut g = self.handles.lock().unwrap();
                    g.push(RequestHandlerExtra::new("".into(), t));
                    json!({"k":"ok","h":g.len()})
                }
                None => json!({"k":"none","h":0}),
            },
            "self" => {
                if let Some(x) = self.handles.lock().unwrap().get(i(&op, "h") as usize - 1) {
                    x.cancellation_token.cancel();
                }
                kind("ok")
            }
            "is" => json!({"k":"ok","b":self.m.is_cancelled(s(&op, "id")).await}),
            "clear" => {
                self.m.clear().await;
                kind("ok")
            }
            "look" => {
                settle_n(10).await;
                let g = self.handles.lock().unwrap();
                let f: Vec<usize> = (0..g.len()).filter(|k| g[*k].is_cancelled()).map(|k| k + 1).collect();
                json!({"k":"ok","fired":f,"notes":drain(&self.notes),"told":!srv})
            }
            e => panic!("op {e}"),
        }
    }
}

// ---------------------------------------------------------------- subscriptions
struct SubsSut {
    m: SubscriptionManager,
    server: Server,
    srv: bool,
    notes: Log,
}
impl SubsSut {
    fn new(c: &Value) -> Rc<Self> {
        let notes: Log = Default::default();
        let n2 = notes.clone();
        let mut m = SubscriptionManager::new();
        m.set_notification_sender(move |n| {
            n2.lock().unwrap().push(match n {
                ServerNotification::ResourceUpdated(p) => json!(p.uri),
                n => json!(format!("{n:?}")),
            })
        });
        Rc::new(SubsSut { m, server: Server::builder().name("s").version("1").build().unwrap(), srv: s(c, "api") == "server", notes })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let rs = |r: Result<()>| json!({"k": if r.is_ok() {"ok"} else {"err"}, "n":0, "set":[]});
        let u = || s(&op, "u").to_string();
        let c = || s(&op, "c").to_string();
        match s(&op, "e") {
            "sub" if self.srv => rs(self.server.subscribe_resource(u(), c()).await),
            "unsub" if self.srv => rs(self.server.unsubscribe_resource(u(), c()).await),
            "changed" if self.srv => json!({"k":"ok","n":self.server.notify_resource_updated(u()).await.unwrap(),"set":[]}),
            "sub" => rs(self.m.subscribe(u(), c()).await),
            "unsub" => rs(self.m.unsubscribe(u(), c()).await),
            "changed" => json!({"k":"ok","n":self.m.notify_resource_updated(u()).await.unwrap(),"set":[]}),
            "leave" => rs(self.m.unsubscribe_all(&c()).await),
            "has" => json!({"k":"ok","n":self.m.has_subscribers(&u()).await as u8,"set":[]}),
            "of" => json!({"k":"ok","n":0,"set":self.m.get_subscriptions(&c()).await}),
            "at" => json!({"k":"ok","n":0,"set":self.m.get_subscribers(&u()).await}),
            "stats" => {
                let t = self.m.get_stats().await;
                json!({"k":"ok","n":t.total_subscriptions,"set":[format!("resources:{}",t.total_resources),format!("clients:{}",t.unique_subscribers)]})
            }
            "look" => json!({"k":"ok","notes":drain(&self.notes),"told":!self.srv}),
            e => panic!("op {e}"),
        }
    }
}

// ---------------------------------------------------------------- roots
struct RootsSut {
    m: RootsManager,
    server: Server,
    srv: bool,
    notes: Log,
    un: RefCell<Vec<Option<Box<dyn FnOnce()>>>>,
}
impl RootsSut {
    fn new(c: &Value) -> Rc<Self> {
        let notes: Log = Default::default();
        let n2 = notes.clone();
        let mut m = RootsManager::new();
        m.set_notification_sender(move |n| {
            let v = if matches!(n, ServerNotification::RootsListChanged) { json!(1) } else { json!(1000) };
            n2.lock().unwrap().push(v)
        });
        let server = Server::builder().name("s").version("1").build().unwrap();
        Rc::new(RootsSut { m, server, srv: s(c, "api") == "server", notes, un: Default::default() })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        match s(&op, "e") {
            "reg" => {
                let name = Some(s(&op, "name").to_string()).filter(|n| n != "none");
                let f: Option<Box<dyn FnOnce()>> = if self.srv {
                    self.server.register_root(s(&op, "uri"), name).await.ok().map(|f| Box::new(f) as _)
                } else {
                    self.m.register_root(s(&op, "uri"), name).await.ok().map(|f| Box::new(f) as _)
                };
                match f {
                    Some(f) => {
                        let mut u = self.un.borrow_mut();
                        u.push(Some(f));
                        json!({"k":"ok","h":u.len()})
                    }
                    None => json!({"k":"err","h":0}),
                }
            }
            "unreg" => {
                let f = self.un.borrow_mut().get_mut(i(&op, "h") as usize - 1).and_then(|f| f.take());
                if let Some(f) = f {
                    f();
                }
                settle_n(10).await;
                json!({"k":"ok","h":0})
            }
            "list" => {
                let l = if self.srv { self.server.get_roots().await } else { self.m.get_roots().await };
                let l: Vec<Value> = l.iter().map(|r| json!({"uri":r.uri,"name":r.name.clone().unwrap_or("none".into())})).collect();
                json!({"k":"ok","list":l})
            }
            "has" => json!({"k":"ok","b": if self.srv { !self.server.get_roots().await.is_empty() } else { self.m.has_roots().await }}),
            "ask" => {
                let a = op["answer"].clone();
                let good = b(&op, "good");
                let wire: Vec<Value> = a.as_array().unwrap().iter().map(|r| if s(r, "name") == "none" { json!({"uri":r["uri"]}) } else { r.clone() }).collect();
                let r = self
                    .m
                    .request_client_roots(|q| async move {
                        assert!(matches!(q, ServerRequest::ListRoots));
                        Ok(if good { json!({"roots":wire}) } else { json!({"rots":1}) })
                    })
                    .await;
                match r {
                    Ok(l) => json!({"k":"ok","asked":l.roots.iter().map(|r| json!({"uri":r.uri,"name":r.name.clone().unwrap_or("none".into())})).collect::<Vec<_>>()}),
                    Err(_) => json!({"k":"err","asked":[]}),
                }
            }
            "look" => json!({"k":"ok","notes":drain(&self.notes).iter().map(|v| v.as_i64().unwrap()).sum::<i64>(),"told":!self.srv}),
            e => panic!("op {e}"),
        }
    }
}

// ---------------------------------------------------------------- elicitation
struct ElicitSut {
    m: Arc<ElicitationManager>,
    rx: RefCell<Option<mpsc::Receiver<ServerRequest>>>,
    outs: Log,
    unit: i64,
}
fn show_outcome(r: Result<ElicitInputResponse>, was_open: bool) -> Value {
    match r {
        Ok(r) => json!({"o":"resp","id":r.elicitation_id,"v":r.value.map(|v| v.to_string()).unwrap_or("none".into()),"c":r.cancelled}),
        Err(e) => {
            let o = match e.error_code() {
                Some(pmcp::ErrorCode::REQUEST_TIMEOUT) => "timeout",
                _ if was_open => "closed",
                _ => "unsent",
            };
            json!({"o":o,"id":"","v":"","c":false})
        }
    }
}
impl ElicitSut {
    fn new(c: &Value) -> Rc<Self> {
        let (tx, rx) = mpsc::channel(1000);
        let mut m = ElicitationManager::new();
        let unit = 10;
        m.set_timeout(std::time::Duration::from_millis((i(c, "timeout") * unit) as u64));
        if b(c, "open") {
            m.set_request_channel(tx);
        }
        Rc::new(ElicitSut { m: Arc::new(m), rx: RefCell::new(b(c, "open").then_some(rx)), outs: Default::default(), unit })
    }
    fn req(op: &Value) -> ElicitInputRequest {
        let mut q = elicit_text(s(op, "prompt")).build();
        q.elicitation_id = s(op, "id").into();
        q
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let id = || s(&op, "id").to_string();
        let rs = |r: Result<()>| kind(if r.is_ok() { "ok" } else { "err" });
        match s(&op, "e") {
            "ask" => {
                let (m, outs, n, q) = (self.m.clone(), self.outs.clone(), op["n"].clone(), Self::req(&op));
                let was = self.rx.borrow().is_some();
                let ctx = i(&op, "n") % 2 == 0;
                tokio::spawn(async move {
                    let r = if ctx { ElicitationContext::new(m).elicit_input(q).await } else { m.elicit_input(q).await };
                    outs.lock().unwrap().push(json!({"n":n,"r":show_outcome(r, was)}));
                });
                settle_n(10).await;
                kind("ok")
            }
            "wait" => {
                let was = self.rx.borrow().is_some();
                show_outcome(self.m.elicit_input(Self::req(&op)).await, was)
            }
            "answer" => {
                let v = Some(s(&op, "v")).filter(|v| *v != "none").map(|v| serde_json::from_str(v).unwrap());
                rs(self.m.handle_response(ElicitInputResponse { elicitation_id: id(), value: v, cancelled: b(&op, "c"), error: None }).await)
            }
            "cancel" => rs(self.m.cancel(&id()).await),
            "cancelall" => {
                self.m.cancel_all().await;
                kind("ok")
            }
            "tick" => {
                advance(self.unit, self.unit).await;
                kind("ok")
            }
            "time" => {
                tokio::time::advance(std::time::Duration::from_millis((self.unit * i(&op, "d")) as u64)).await;
                kind("ok")
            }
            "count" => json!({"k":"ok","n":self.m.pending_count().await}),
            "shut" => {
                // what has been sent is kept for the next look
                let mut g = self.rx.borrow_mut();
                if let Some(mut rx) = g.take() {
                    while let Ok(q) = rx.try_recv() {
                        self.outs.lock().unwrap().push(json!({"sent":q_show(q)}));
                    }
                }
                kind("ok")
            }
            "look" => {
                settle_n(10).await;
                let (mut sent, mut outs) = (vec![], vec![]);
                for v in drain(&self.outs) {
                    match v.get("sent") {
                        Some(x) => sent.push(x.clone()),
                        None => outs.push(v),
                    }
                }
                if let Some(rx) = self.rx.borrow_mut().as_mut() {
                    while let Ok(q) = rx.try_recv() {
                        sent.push(q_show(q));
                    }
                }
                json!({"k":"ok","sent":sent,"outs":outs})
            }
            e => panic!("op {e}"),
        }
    }
}
fn q_show(q: ServerRequest) -> Value {
    match q {
        ServerRequest::ElicitInput(q) => json!([q.elicitation_id, q.prompt]),
        q => json!([format!("{q:?}"), ""]),
    }
}

// ---------------------------------------------------------------- driving
type Exec = Rc<dyn Fn(Value) -> Fut>;
fn sut(comp: &str, c: &Value) -> Exec {
    macro_rules! mk {
        ($t:ty) => {{
            let x = <$t>::new(c);
            Rc::new(move |op: Value| -> Fut { Box::pin(guard_async(x.clone().exec(op))) })
        }};
    }
    match comp {
        "cancel" => mk!(CancelSut),
        "subs" => mk!(SubsSut),
        "roots" => mk!(RootsSut),
        _ => mk!(ElicitSut),
    }
}
async fn play(o: &mut Opts, comp: &str, c: Value, ops: Vec<Value>, looks: bool) {
    let ex = sut(comp, &c);
    let mut tr = vec![c];
    for op in ops {
        match bounded(500, ex(op.clone())).await {
            Some(r) => tr.push(ev(&op, r)),
            None => {
                tr.push(ev(&op, kind("hang")));
                break;
            }
        }
        if looks && op["e"] != "look" {
            let l = json!({"e":"look"});
            let r = ex(l.clone()).await;
            tr.push(ev(&l, r));
        }
    }
    o.out.put(tr);
}
fn gen(comp: &str, r: &mut Rng, c: &Value, st: &mut Vec<(String, bool)>) -> Value {
    let id = *r.pick(&["a", "b", "c", "1", "é", "long-request-id-000000000000000000000000000000000"]);
    match comp {
        "cancel" if s(c, "api") == "server" => {
            let free: Vec<usize> = (0..st.len()).filter(|k| st[*k].1).collect();
            match r.below(5) {
                0 | 1 if !st.iter().any(|x| x.0 == id && x.1) => {
                    st.push((id.into(), true));
                    json!({"e":"create","id":id})
                }
                2 if !free.is_empty() => {
                    let k = *r.pick(&free);
                    st[k].1 = false;
                    json!({"e":"finish","h":k+1})
                }
                _ => json!({"e":"cancel","id":id,"why":*r.pick(&["w","","é"])}),
            }
        }
        "cancel" => match r.below(14) {
            0..=3 => json!({"e":"create","id":id}),
            4..=6 => json!({"e":"cancel","id":id,"why":*r.pick(&["w","","é"])}),
            7 => json!({"e":"drop","id":id}),
            8 | 9 => json!({"e":"get","id":id}),
            10 => json!({"e":"self","h":1+r.below(5)}),
            11 | 12 => json!({"e":"is","id":id}),
            _ => if r.chance(1, 3) { json!({"e":"clear"}) } else { json!({"e":"look"}) },
        },
        "subs" => {
            let srv = s(c, "api") == "server";
            let u = *r.pick(&["u1", "u2", "file:///é", "u1/", if srv { "" } else { "U1" }]);
            let cl = *r.pick(&["c1", "c2", "c3", "u1", if srv { "" } else { "c4" }]);
            match r.below(if srv { 9 } else { 15 }) {
                0..=3 => json!({"e":"sub","u":u,"c":cl}),
                4 | 5 => json!({"e":"unsub","u":u,"c":cl}),
                6..=8 => json!({"e":"changed","u":u}),
                9 => json!({"e":"leave","c":cl}),
                10 => json!({"e":"has","u":u}),
                11 => json!({"e":"of","c":cl}),
                12 => json!({"e":"at","u":u}),
                13 => json!({"e":"stats"}),
                _ => json!({"e":"look"}),
            }
        }
        "roots" => {
            let srv = s(c, "api") == "server";
            let (u, f) = *r.pick(&[("file:///a", true), ("file:///a", true), ("file:///b", true), ("file://", true), ("file:///é x", true), ("http://a", false), ("", false), ("/a", false), ("File:///a", false), ("file:/a", false), (" file:///a", false)]);
            match r.below(if srv { 10 } else { 12 }) {
                0..=3 => json!({"e":"reg","uri":u,"name":*r.pick(&["none","none","x","y",""]),"file":f}),
                4..=6 => json!({"e":"unreg","h":1+r.below(8)}),
                7 | 8 => json!({"e":"list"}),
                9 => json!({"e":"has"}),
                10 => json!({"e":"look"}),
                _ => {
                    let n = r.below(3);
                    let good = r.chance(3, 4);
                    json!({"e":"ask","good":good,"answer": (0..n).map(|k| json!({"uri":format!("file:///{k}"),"name":*r.pick(&["none","n"])})).collect::<Vec<_>>()})
                }
            }
        }
        _ => {
            let id = *r.pick(&["a", "b", "c", "d"]);
            match r.below(16) {
                0..=5 => {
                    st.push(("".into(), true));
                    // now and then an id that may still be waiting
                    json!({"e":"ask","n":st.len(),"id": if r.chance(2,3) { format!("{id}{}", st.len()) } else { id.to_string() },"prompt":*r.pick(&["p","q","é"])})
                }
                6..=9 => {
                    let id = if st.is_empty() || r.chance(1, 3) { id.to_string() } else { format!("{id}{}", 1 + r.below(st.len())) };
                    json!({"e":"answer","id":id,"v":*r.pick(&["1","none","\"x\"","{\"a\":[true]}"]),"c":r.chance(1,5)})
                }
                10 => {
                    let id = if st.is_empty() || r.chance(1, 3) { id.to_string() } else { format!("{id}{}", 1 + r.below(st.len())) };
                    json!({"e":"cancel","id":id})
                }
                11 => if r.chance(1, 3) { json!({"e":"cancelall"}) } else { json!({"e":"tick"}) },
                12 | 13 => json!({"e":"tick"}),
                14 => json!({"e":"count"}),
                _ => if r.chance(1, 12) { json!({"e":"shut"}) } else { json!({"e":"look"}) },
            }
        }
    }
}
pub fn run(o: &mut Opts) {
    let comp = o.comp.clone();
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            let rt = paused_rt();
            for sc in std::mem::take(&mut o.scripts) {
                rt.block_on(play(o, &comp, sc[0].clone(), sc[1..].to_vec(), true));
            }
        }
        "rand" => {
            let rt = paused_rt();
            for _ in 0..o.n {
                let srv = r.chance(1, 3);
                let api = if srv { "server" } else { "manager" };
                let c = if comp == "elicit" {
                    json!({"e":"init","timeout":*r.pick(&[1, 2, 3, 5]),"open":r.chance(19, 20)})
                } else {
                    json!({"e":"init","api":api,"strict":srv})
                };
                let mut st = vec![];
                let n = 10 + r.below(40);
                let mut ops: Vec<Value> = (0..n).map(|_| gen(&comp, &mut r, &c, &mut st)).collect();
                ops.push(json!({"e":"look"}));
                let looks = r.chance(1, 2);
                rt.block_on(play(o, &comp, c, ops, looks));
            }
        }
        // very many at once
        "crowd" => {
            let rt = paused_rt();
            for _ in 0..o.n {
                let api = if comp != "elicit" && r.chance(1, 3) { "server" } else { "manager" };
                let c = if comp == "elicit" { json!({"e":"init","timeout":5,"open":true}) } else { json!({"e":"init","api":api,"strict":api=="server"}) };
                let k = 70 + r.below(80);
                let mut ops = vec![];
                for n in 0..k {
                    ops.push(match comp.as_str() {
                        "cancel" => json!({"e":"create","id":format!("q{n}")}),
                        "subs" => json!({"e":"sub","u":if n % 3 == 0 { "u".into() } else { format!("u{n}") },"c":if n % 4 == 0 { "c".into() } else { format!("c{n}") }}),
                        "roots" => json!({"e":"reg","uri":format!("file:///d{n}"),"name":"none","file":true}),
                        _ => json!({"e":"ask","n":n+1,"id":format!("q{n}"),"prompt":"p"}),
                    });
                }
                let some = |r: &mut Rng| *r.pick(&[0, 1, 31, 63, 64, 65, k / 2, k - 2, k - 1]);
                for _ in 0..14 {
                    let n = some(&mut r);
                    let id = format!("q{n}");
                    let (u, cl) = (format!("u{}", n - (n % 3 == 0 && n > 0) as usize), format!("c{n}"));
                    ops.push(match (comp.as_str(), r.below(4)) {
                        ("cancel", 0) if api == "manager" => json!({"e":"is","id":id}),
                        ("cancel", 1) if api == "manager" => json!({"e":"get","id":id}),
                        ("cancel", 2) if api == "server" => json!({"e":"cancel","id":"nobody","why":"w"}),
                        ("cancel", _) => json!({"e":"cancel","id":id,"why":"w"}),
                        ("subs", 0) if api == "manager" => json!({"e":"at","u":"u"}),
                        ("subs", 1) if api == "manager" => json!({"e":"of","c":"c"}),
                        ("subs", 2) => json!({"e":"unsub","u":u,"c":cl}),
                        ("subs", _) => json!({"e":"changed","u":if r.chance(1, 4) { "u".into() } else { u }}),
                        ("roots", 0) => json!({"e":"unreg","h":n+1}),
                        ("roots", 1) => json!({"e":"has"}),
                        ("roots", _) => json!({"e":"list"}),
                        (_, 0) => json!({"e":"count"}),
                        (_, 1) => json!({"e":"cancel","id":id}),
                        _ => json!({"e":"answer","id":id,"v":"1","c":false}),
                    });
                }
                if comp == "elicit" {
                    for _ in 0..6 {
                        ops.push(json!({"e":"tick"}));
                    }
                }
                ops.push(json!({"e":"look"}));
                rt.block_on(play(o, &comp, c, ops, false));
            }
        }
        "conc" => {
            let e = |x: &str, id: &str| json!({"e":x,"id":id,"why":"w"});
            let sb = |x: &str, u: &str, c: &str| json!({"e":x,"u":u,"c":c});
            let w = |n: i64, id: &str| json!({"e":"wait","n":n,"id":id,"prompt":"p"});
            let an = |id: &str, v: &str| json!({"e":"answer","id":id,"v":v,"c":false});
            let tm = |d: i64| json!({"e":"time","d":d});
            let (cfg, pre, sets, post): (Value, Vec<Value>, Vec<Vec<Vec<Value>>>, Vec<Value>) = match comp.as_str() {
                "cancel" => (
                    json!({"e":"init","api":"manager"}),
                    vec![e("create", "a"), e("create", "b")],
                    vec![
                        vec![vec![e("cancel", "a")], vec![e("cancel", "a")], vec![e("is", "a")]],
                        vec![vec![e("cancel", "a")], vec![e("drop", "a")]],
                        vec![vec![e("cancel", "a")], vec![e("get", "a")], vec![e("cancel", "b")]],
                        vec![vec![e("clear", "")], vec![e("cancel", "a")], vec![e("get", "b")]],
                        vec![vec![e("clear", "")], vec![e("create", "c"), e("cancel", "c")]],
                        vec![vec![e("create", "c"), e("drop", "c")], vec![e("cancel", "c"), e("cancel", "b")], vec![e("drop", "b")]],
                    ],
                    vec![e("look", ""), e("is", "a"), e("get", "b"), e("cancel", "c"), e("look", "")],
                ),
                "subs" => (
                    json!({"e":"init","api":"manager","strict":false}),
                    vec![sb("sub", "u1", "c1"), sb("sub", "u2", "c2")],
                    vec![
                        vec![vec![sb("changed", "u1", "")], vec![sb("unsub", "u1", "c1")], vec![sb("sub", "u1", "c2")]],
                        vec![vec![sb("leave", "", "c1")], vec![sb("sub", "u2", "c1")], vec![sb("changed", "u2", "")]],
                        vec![vec![sb("sub", "u1", "c1")], vec![sb("unsub", "u1", "c1")], vec![sb("has", "u1", "")]],
                        vec![vec![sb("changed", "u1", "")], vec![sb("changed", "u1", "")], vec![sb("leave", "", "c1")]],
                        vec![vec![sb("unsub", "u1", "c1")], vec![sb("sub", "u1", "c3")], vec![sb("of", "", "c3"), sb("stats", "", "")]],
                    ],
                    vec![sb("stats", "", ""), sb("at", "u1", ""), sb("at", "u2", ""), sb("of", "", "c1"), sb("look", "", "")],
                ),
                _ => (
                    json!({"e":"init","timeout":2,"open":true}),
                    vec![],
                    vec![
                        vec![vec![w(1, "a")], vec![an("a", "1")], vec![an("a", "2"), tm(2)]],
                        vec![vec![w(1, "a")], vec![w(2, "b")], vec![an("b", "2"), an("a", "1")]],
                        vec![vec![w(1, "a")], vec![tm(2)], vec![an("a", "1")]],
                        vec![vec![w(1, "a"), w(3, "c")], vec![w(2, "b")], vec![tm(2), an("b", "2"), tm(2)]],
                        vec![vec![w(1, "a")], vec![w(2, "b")], vec![e("cancelall", ""), an("a", "1"), tm(2)]],
                        vec![vec![w(1, "a")], vec![e("cancel", "a"), tm(3)], vec![an("a", "1")]],
                        vec![vec![w(1, "a")], vec![w(2, "a")], vec![an("a", "1"), tm(2)]],
                    ],
                    vec![json!({"e":"look"}), json!({"e":"answer","id":"a","v":"9","c":false}), json!({"e":"look"})],
                ),
            };
            let (cap, seed) = (o.n, o.seed);
            for (si, set) in sets.iter().enumerate() {
                schedules(cap, seed + si as u64, |choose| {
                    paused_rt().block_on(async {
                        let ex = sut(&comp, &cfg);
                        let mut tr = vec![cfg.clone()];
                        for op in &pre {
                            tr.push(ev(op, ex(op.clone()).await));
                        }
                        let procs = set
                            .iter()
                            .map(|ops| {
                                let ex = ex.clone();
                                let mk: Box<dyn FnMut(&Value) -> Fut> = Box::new(move |op| ex(op.clone()));
                                (ops.clone(), mk)
                            })
                            .collect();
                        if (Conc { tr: &mut tr, choose }).run(procs).await {
                            for op in &post {
                                tr.push(ev(op, ex(op.clone()).await));
                            }
                        }
                        o.out.put(tr);
                    });
                });
            }
        }
        f => panic!("family {f}"),
    }
}
