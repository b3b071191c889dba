//! The client: handshake, capability gate and pairing of calls with responses.
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use pmcp::shared::Transport;
use pmcp::types::*;
use pmcp::{Client, Error, Result};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use tokio::sync::Notify;

#[derive(Debug, Default)]
struct Wire {
    sent: Vec<Value>,              // attempts, not yet reported
    unsent: Vec<(usize, String)>,  // calls that have not sent their first message: number, method
    ids: HashMap<usize, RequestId>,
    seen: Vec<RequestId>,
    inbox: Vec<Result<TransportMessage>>,
    sfail: bool,
    shaking: usize,
}
#[derive(Debug, Clone)]
struct Tp(Arc<(Mutex<Wire>, Notify)>);
fn arg_of(m: &str, p: &Value) -> String {
    let t = |x: &Value| x.as_str().unwrap_or("?").to_string();
    match m {
        "init" => t(&p["protocolVersion"]),
        "tools" | "prompts" | "resources" | "templates" => t(&p["cursor"]),
        "call" if p["arguments"] == json!({"q":p["name"]}) => t(&p["name"]),
        "prompt" if p["arguments"] == json!({"q":p["name"]}) => t(&p["name"]),
        "read" | "subscribe" | "unsubscribe" => t(&p["uri"]),
        "complete" => t(&p["argument"]["value"]),
        "sample" => t(&p["messages"][0]["content"]["text"]),
        "setlevel" => if p["level"] == "warning" { String::new() } else { format!("level {}", p["level"]) },
        "ping" => String::new(),
        _ => format!("? {p}"),
    }
}
fn short(method: &str) -> &str {
    match method {
        "initialize" => "init",
        "tools/list" => "tools",
        "tools/call" => "call",
        "prompts/list" => "prompts",
        "prompts/get" => "prompt",
        "resources/list" => "resources",
        "resources/templates/list" => "templates",
        "resources/read" => "read",
        "resources/subscribe" => "subscribe",
        "resources/unsubscribe" => "unsubscribe",
        "completion/complete" => "complete",
        "logging/setLevel" => "setlevel",
        "sampling/createMessage" => "sample",
        m => m,
    }
}
#[async_trait]
impl Transport for Tp {
    async fn send(&mut self, msg: TransportMessage) -> Result<()> {
        let mut w = self.0 .0.lock().unwrap();
        let ok = !std::mem::replace(&mut w.sfail, false);
        let (m, a, id) = match msg {
            TransportMessage::Request { id, request: Request::Client(c) } => {
                let v = serde_json::to_value(&*c).unwrap();
                let m = short(v["method"].as_str().unwrap()).to_string();
                let a = arg_of(&m, &v["params"]);
                (m, a, Some(id))
            }
            TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)) => ("initialized".into(), String::new(), None),
            TransportMessage::Notification(Notification::Client(ClientNotification::RootsListChanged)) => ("roots".into(), String::new(), None),
            TransportMessage::Notification(Notification::Progress(p)) => ("progress".into(), match p.progress_token { ProgressToken::String(t) => t, t => format!("{t:?}") }, None),
            TransportMessage::Notification(Notification::Cancelled(c)) => ("cancel".into(), c.request_id.to_string(), None),
            m => (format!("{m:?}"), String::new(), None),
        };
        let n = if m == "initialized" {
            w.shaking
        } else {
            match w.unsent.iter().position(|(n, k)| *k == m && (a == n.to_string() || a.is_empty() || m == "init")) {
                Some(p) => w.unsent.remove(p).0,
                None => 0,
            }
        };
        let mut m = m;
        if let Some(id) = id {
            if w.seen.contains(&id) {
                m = format!("{m} under an id already used");
            }
            w.seen.push(id.clone());
            w.ids.insert(n, id);
        }
        if m == "init" && a != pmcp::LATEST_PROTOCOL_VERSION {
            m = "init with another version".into();
        }
        w.sent.push(json!({"n":n,"m":m,"a":a,"ok":ok}));
        if ok {
            Ok(())
        } else {
            Err(Error::internal("send failed"))
        }
    }
    async fn receive(&mut self) -> Result<TransportMessage> {
        loop {
            let wait = self.0 .1.notified();
            {
                let mut w = self.0 .0.lock().unwrap();
                if !w.inbox.is_empty() {
                    return w.inbox.remove(0);
                }
            }
            wait.await;
        }
    }
    async fn close(&mut self) -> Result<()> {
        Ok(())
    }
}
const CAPS: [&str; 7] = ["tools", "prompts", "resources", "subscribe", "logging", "completions", "sampling"];
fn caps_json(caps: &[&str]) -> Value {
    let mut o = json!({});
    for c in caps {
        match *c {
            "subscribe" => o["resources"] = json!({"subscribe":true}),
            "resources" => o["resources"] = if caps.len() % 2 == 0 { json!({}) } else { json!({"subscribe":false}) },
            c => o[c] = json!({}),
        }
    }
    o
}
fn caps_show(c: &ServerCapabilities) -> String {
    let v = serde_json::to_value(c).unwrap();
    CAPS.iter()
        .filter(|k| if **k == "subscribe" { v["resources"]["subscribe"] == true } else { v.get(**k).is_some() })
        .map(|k| format!("{k},"))
        .collect()
}
fn good(m: &str, op: &Value) -> Value {
    let v = s(op, "v");
    match m {
        "init" => {
            let caps: Vec<&str> = op["caps"].as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
            json!({"protocolVersion":s(op,"ver"),"capabilities":caps_json(&caps),"serverInfo":{"name":"srv","version":"1"},"instructions":"do"})
        }
        "tools" => json!({"tools":[{"name":v,"inputSchema":{}}]}),
        "call" => json!({"content":[{"type":"text","text":v}]}),
        "prompts" => json!({"prompts":[{"name":v}]}),
        "prompt" => json!({"description":v,"messages":[]}),
        "resources" => json!({"resources":[{"uri":v,"name":"n"}]}),
        "templates" => json!({"resourceTemplates":[{"uriTemplate":v,"name":v}]}),
        "read" => json!({"contents":[{"type":"text","text":v}]}),
        "complete" => json!({"completion":{"values":[v],"hasMore":false}}),
        "sample" => json!({"content":{"type":"text","text":v},"model":"m"}),
        _ => json!({}),
    }
}
/// Every other code comes with a reason.
fn server_error(code: i32) -> JSONRPCError {
    let (message, data) = if code % 2 == 0 { ("from the server", None) } else { ("from the server, because", Some(json!({"why":["from the server, because", null]}))) };
    JSONRPCError { code, message: message.into(), data }
}
fn show_err(e: Error) -> String {
    match e {
        Error::Protocol { code, message, data: None } if message == "from the server" => format!("err:{}", code.as_i32()),
        Error::Protocol { code, message, data: Some(d) } if message == "from the server, because" && d == json!({"why":[message, null]}) => format!("err:{}", code.as_i32()),
        _ => "fail".into(),
    }
}
fn text(c: &Content) -> String {
    match c {
        Content::Text { text } => text.clone(),
        c => format!("{c:?}"),
    }
}
async fn one_call(c: &Client<Tp>, m: &str, n: usize) -> Result<String> {
    let a = n.to_string();
    Ok(match m {
        "ping" => c.ping().await.map(|_| "ok".to_string())?,
        "setlevel" => c.set_logging_level(serde_json::from_value(json!("warning")).unwrap()).await.map(|_| "ok".to_string())?,
        "tools" => c.list_tools(Some(a)).await?.tools[0].name.clone(),
        "call" => text(&c.call_tool(a.clone(), json!({"q":a})).await?.content[0]),
        "prompts" => c.list_prompts(Some(a)).await?.prompts[0].name.clone(),
        "prompt" => c.get_prompt(a.clone(), HashMap::from([("q".to_string(), a)])).await?.description.unwrap(),
        "resources" => c.list_resources(Some(a)).await?.resources[0].uri.clone(),
        "templates" => c.list_resource_templates(Some(a)).await?.resource_templates[0].name.clone(),
        "read" => text(&c.read_resource(a).await?.contents[0]),
        "subscribe" => c.subscribe_resource(a).await.map(|_| "ok".to_string())?,
        "unsubscribe" => c.unsubscribe_resource(a).await.map(|_| "ok".to_string())?,
        "complete" => c
            .complete(serde_json::from_value(json!({"ref":{"type":"ref/prompt","name":"p"},"argument":{"name":"x","value":a}})).unwrap())
            .await?
            .completion
            .values[0]
            .clone(),
        "sample" => text(&c.create_message(serde_json::from_value(json!({"messages":[{"role":"user","content":{"type":"text","text":a}}]})).unwrap()).await?.content),
        "roots" => c.send_roots_list_changed().await.map(|_| "ok".to_string())?,
        "progress" => c.send_progress(serde_json::from_value(json!({"progressToken":a,"progress":1.0})).unwrap()).await.map(|_| "ok".to_string())?,
        "cancel" => c.cancel_request(&RequestId::from(a)).await.map(|_| "ok".to_string())?,
        m => panic!("call {m}"),
    })
}
struct Sut {
    client: Arc<Mutex<Client<Tp>>>,
    tp: Tp,
    cnt: RefCell<usize>,
    meth: RefCell<Vec<String>>,
    outs: Arc<Mutex<Vec<Value>>>,
    tasks: RefCell<Vec<Option<tokio::task::JoinHandle<()>>>>,
}
impl Sut {
    fn new(_c: &Value) -> Rc<Self> {
        let tp = Tp(Default::default());
        Rc::new(Sut {
            client: Arc::new(Mutex::new(Client::with_info(tp.clone(), Implementation { name: "cl".into(), version: "1".into() }))),
            tp,
            cnt: RefCell::new(0),
            meth: Default::default(),
            outs: Default::default(),
            tasks: Default::default(),
        })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let none = |k: &str| json!({"k":k,"sent":[],"outs":[]});
        match s(&op, "e") {
            "do" => {
                let m = s(&op, "m").to_string();
                if m == "init" && self.tp.0 .0.lock().unwrap().shaking != 0 {
                    return none("busy");
                }
                *self.cnt.borrow_mut() += 1;
                let n = *self.cnt.borrow();
                self.meth.borrow_mut().push(m.clone());
                self.tp.0 .0.lock().unwrap().unsent.push((n, m.clone()));
                let cell = self.client.clone();
                let mut client = cell.lock().unwrap().clone();
                let (outs, tp) = (self.outs.clone(), self.tp.clone());
                let h = if m == "init" {
                    let mut cc = ClientCapabilities::default();
                    if s(&op, "roots") != "absent" {
                        cc.roots = Some(RootsCapabilities { list_changed: s(&op, "roots") == "yes" });
                    }
                    tp.0 .0.lock().unwrap().shaking = n;
                    tokio::spawn(async move {
                        let r = client.initialize(cc).await;
                        let v = match r {
                            Ok(r) => format!("{}|{}", r.protocol_version.as_str(), client.get_server_capabilities().map(caps_show).unwrap_or_default()),
                            Err(e) => show_err(e),
                        };
                        *cell.lock().unwrap() = client;
                        let mut w = tp.0 .0.lock().unwrap();
                        w.shaking = 0;
                        w.unsent.retain(|x| x.0 != n);
                        outs.lock().unwrap().push(json!({"n":n,"v":v}));
                    })
                } else {
                    tokio::spawn(async move {
                        let v = one_call(&client, &m, n).await.unwrap_or_else(show_err);
                        tp.0 .0.lock().unwrap().unsent.retain(|x| x.0 != n);
                        outs.lock().unwrap().push(json!({"n":n,"v":v}));
                    })
                };
                self.tasks.borrow_mut().push(Some(h));
            }
            "give" => {
                let n = op.get("n").and_then(|n| n.as_u64()).unwrap_or(0) as usize;
                let msg = match s(&op, "t") {
                    "resp" => {
                        let w = self.tp.0 .0.lock().unwrap();
                        let Some(id) = w.ids.get(&n).cloned() else { return none("skip") };
                        drop(w);
                        let m = self.meth.borrow()[n - 1].clone();
                        Ok(TransportMessage::Response(match s(&op, "a") {
                            "err" => JSONRPCResponse::error(id, server_error(s(&op, "v").parse().unwrap())),
                            "bad" => JSONRPCResponse::success(id, json!("junk")),
                            _ => JSONRPCResponse::success(id, good(&m, &op)),
                        }))
                    }
                    // an id never used: textual, far away, or the textual form of one in use
                    "stale" => {
                        let id = match self.cnt.borrow().wrapping_mul(7) % 3 {
                            0 => RequestId::from(-1i64),
                            1 => RequestId::from("none"),
                            _ => match self.tp.0 .0.lock().unwrap().seen.last() {
                                Some(RequestId::Number(k)) => RequestId::from(k.to_string()),
                                _ => RequestId::from(-7i64),
                            },
                        };
                        Ok(TransportMessage::Response(JSONRPCResponse::success(id, json!({"content":[{"type":"text","text":"stale"}]}))))
                    }
                    "notif" => Ok(TransportMessage::Notification(Notification::Server(ServerNotification::ToolsChanged))),
                    "req" => Ok(TransportMessage::Request { id: self.tp.0 .0.lock().unwrap().seen.last().cloned().unwrap_or(RequestId::from(1i64)), request: Request::Server(Box::new(ServerRequest::ListRoots)) }),
                    "fail" => Err(Error::internal("receive failed")),
                    t => panic!("give {t}"),
                };
                self.tp.0 .0.lock().unwrap().inbox.push(msg);
                self.tp.0 .1.notify_waiters();
            }
            "drop" => {
                let n = i(&op, "n") as usize;
                if n > *self.cnt.borrow() || self.tp.0 .0.lock().unwrap().shaking == n {
                    return none("skip");
                }
                if let Some(h) = self.tasks.borrow_mut()[n - 1].take() {
                    h.abort();
                }
                settle_n(3).await;
                self.tp.0 .0.lock().unwrap().unsent.retain(|x| x.0 != n);
            }
            "failsend" => self.tp.0 .0.lock().unwrap().sfail = true,
            e => panic!("op {e}"),
        }
        settle().await;
        let sent: Vec<Value> = self.tp.0 .0.lock().unwrap().sent.drain(..).collect();
        let outs: Vec<Value> = self.outs.lock().unwrap().drain(..).collect();
        json!({"k":"ok","sent":sent,"outs":outs})
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let rt = paused_rt();
    let fix = |mut v: Value| {
        if v["e"] == "init" {
            v["latest"] = json!(pmcp::LATEST_PROTOCOL_VERSION);
        }
        v
    };
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                let c = fix(sc[0].clone());
                rt.block_on(play_seq(o, mk_exec!(Sut::new(&c)), c, sc[1..].to_vec(), false));
            }
        }
        "rand" | "randgate" => {
            let gate = o.fam == "randgate";
            let ms = ["ping", "setlevel", "tools", "call", "prompts", "prompt", "resources", "templates", "read", "subscribe", "unsubscribe", "complete", "sample", "roots", "progress", "cancel"];
            let uniq = ["call", "read", "tools", "prompt", "complete", "sample", "cancel", "progress"];
            for _ in 0..o.n {
                let c = fix(json!({"e":"init"}));
                let give = |r: &mut Rng, n: usize, init: bool| {
                    let mut caps: Vec<&str> = CAPS.iter().copied().filter(|_| !gate || r.chance(2, 3)).collect();
                    if !caps.contains(&"resources") {
                        caps.retain(|c| *c != "subscribe");
                    }
                    let ok = r.chance(if init { 5 } else { 3 }, if init { 6 } else { 4 });
                    let a = if ok { "ok" } else { *r.pick(&["err", "err", "bad"]) };
                    let v = if a == "err" { r.pick(&["-32601", "-32050", "-32000", "-32099", "-32001", "-1", "0", "7", "-32100"]).to_string() } else { format!("v{n}") };
                    let ver = if init && r.chance(1, 6) { *r.pick(&["1999-01-01", "", "2025-06-1", "2026-01-01"]) } else { *r.pick(&["2024-10-07", "2024-11-05", "2025-03-26", "2025-06-18"]) };
                    json!({"e":"give","t":"resp","n":n,"a":a,"v":v,"ver":ver,"caps":caps})
                };
                // a weather forecast of the calls so that answers usually hit somebody
                let (mut ops, mut cnt, mut open): (Vec<Value>, usize, Vec<usize>) = (vec![], 0, vec![]);
                let pre = r.below(3);
                for _ in 0..pre {
                    cnt += 1;
                    ops.push(json!({"e":"do","m":*r.pick(&ms)}));
                }
                for _ in 0..1 + r.below(if gate { 3 } else { 1 }) {
                    cnt += 1;
                    if r.chance(1, 10) {
                        ops.push(json!({"e":"failsend"}));
                    }
                    ops.push(json!({"e":"do","m":"init","roots":*r.pick(&["absent","no","yes"])}));
                    if r.chance(1, 4) {
                        ops.push(json!({"e":"give","t":*r.pick(&["stale","notif","req","fail"])}));
                    }
                    if r.chance(1, 10) {
                        ops.push(json!({"e":"failsend"}));
                    }
                    ops.push(give(&mut r, cnt, true));
                }
                let len = 5 + r.below(if gate { 20 } else { 30 });
                for _ in 0..len {
                    match r.below(12) {
                        0..=4 => {
                            if gate {
                                // one call at a time
                                cnt += 1;
                                ops.push(json!({"e":"do","m":*r.pick(&ms)}));
                                ops.push(give(&mut r, cnt, false));
                            } else {
                                cnt += 1;
                                open.push(cnt);
                                ops.push(json!({"e":"do","m":*r.pick(&uniq)}));
                            }
                        }
                        5..=7 => {
                            let n = if open.is_empty() || r.chance(1, 6) { 1 + r.below(cnt + 1) } else { open.remove(r.below(open.len())) };
                            ops.push(give(&mut r, n, false));
                        }
                        8 | 9 => ops.push(json!({"e":"give","t":*r.pick(&["stale","notif","req","stale","notif","req","fail"])})),
                        10 => ops.push(json!({"e":"drop","n":1+r.below(cnt+1)})),
                        _ => {
                            if r.chance(1, 3) {
                                ops.push(json!({"e":"failsend"}));
                            }
                        }
                    }
                }
                // everybody gets an answer in the end: waiting calls cannot stay unsent
                for _ in 0..3 {
                    for n in 1..=cnt {
                        ops.push(give(&mut r, n, false));
                    }
                }
                rt.block_on(play_seq(o, mk_exec!(Sut::new(&c)), c, ops, false));
            }
        }
        // very many calls at once
        "crowd" => {
            for _ in 0..o.n {
                let c = fix(json!({"e":"init"}));
                let give = |n: usize, a: &str| {
                    json!({"e":"give","t":"resp","n":n,"a":a,"v":if a == "err" { "-32050".to_string() } else { format!("v{n}") },"ver":"2025-06-18","caps":CAPS})
                };
                let k = 50 + r.below(60);
                let mut ops = vec![json!({"e":"do","m":"init","roots":"absent"}), give(1, "ok")];
                let mut open: Vec<usize> = (2..k + 2).collect();
                for _ in 0..k {
                    ops.push(json!({"e":"do","m":*r.pick(&["call", "read", "prompt"])}));
                }
                while !open.is_empty() {
                    let n = if r.chance(1, 2) { open.remove(0) } else { open.remove(r.below(open.len())) };
                    ops.push(give(n, if r.chance(1, 6) { "err" } else { "ok" }));
                }
                for _ in 0..3 {
                    for n in 2..k + 2 {
                        ops.push(give(n, "ok"));
                    }
                }
                rt.block_on(play_seq_n(o, 20_000, mk_exec!(Sut::new(&c)), c, ops, false));
            }
        }
        f => panic!("family {f}"),
    }
}
