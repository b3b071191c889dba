//! Middleware chains (P19).
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use pmcp::shared::{AuthMiddleware, LoggingMiddleware, Middleware, MiddlewareChain, RetryMiddleware, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::{ClientRequest, JSONRPCRequest, JSONRPCResponse, Notification, ProgressNotification, ProgressToken, Request, RequestId};
use pmcp::Error;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// What was seen of each message, by the number of the message.
type Seen = Arc<Mutex<HashMap<i64, Vec<Value>>>>;
struct Stub {
    id: String,
    acts: Value,
    seen: Seen,
    slow: bool,
}
impl Stub {
    async fn see(&self, q: &str, n: i64, saw: Value) -> (bool, bool) {
        if self.slow {
            tokio::task::yield_now().await;
        }
        self.seen.lock().unwrap().entry(n).or_default().push(json!({"by":self.id,"saw":saw}));
        if self.slow {
            tokio::task::yield_now().await;
        }
        let a = s(&self.acts, q);
        (a.starts_with("mark"), a.ends_with("fail"))
    }
    fn end(&self, fails: bool) -> pmcp::Result<()> {
        if fails {
            Err(Error::internal(format!("by {}", self.id)))
        } else {
            Ok(())
        }
    }
}
fn num(id: &RequestId) -> i64 {
    match id {
        RequestId::Number(n) => *n,
        RequestId::String(s) => s.parse().unwrap_or(-1),
    }
}
fn trail(v: Option<&Value>) -> Value {
    v.and_then(|v| v.get("trail")).cloned().unwrap_or_else(|| json!(["lost"]))
}
fn of_message(m: &TransportMessage) -> (i64, Value) {
    match m {
        TransportMessage::Request { id, request: Request::Client(c) } => match &**c {
            ClientRequest::CallTool(p) => (num(id), trail(Some(&p.arguments))),
            _ => (num(id), json!(["other"])),
        },
        TransportMessage::Response(r) => (num(&r.id), of_response(r)),
        TransportMessage::Notification(Notification::Progress(p)) => {
            let n = match &p.progress_token {
                ProgressToken::Number(n) => *n,
                ProgressToken::String(_) => -1,
            };
            (n, p.message.as_deref().map_or(json!(["lost"]), |m| serde_json::from_str(m).unwrap()))
        }
        _ => (-1, json!(["other"])),
    }
}
fn of_response(r: &JSONRPCResponse) -> Value {
    match &r.payload {
        ResponsePayload::Result(v) => trail(Some(v)),
        ResponsePayload::Error(e) => trail(e.data.as_ref()),
    }
}
#[async_trait]
impl Middleware for Stub {
    async fn on_request(&self, r: &mut JSONRPCRequest) -> pmcp::Result<()> {
        let (mark, fails) = self.see("request", num(&r.id), trail(r.params.as_ref())).await;
        if mark {
            r.params.as_mut().unwrap()["trail"].as_array_mut().unwrap().push(json!(self.id));
        }
        self.end(fails)
    }
    async fn on_response(&self, r: &mut JSONRPCResponse) -> pmcp::Result<()> {
        let (mark, fails) = self.see("response", num(&r.id), of_response(r)).await;
        if mark {
            let v = match &mut r.payload {
                ResponsePayload::Result(v) => v,
                ResponsePayload::Error(e) => e.data.as_mut().unwrap(),
            };
            v["trail"].as_array_mut().unwrap().push(json!(self.id));
        }
        self.end(fails)
    }
    async fn on_send(&self, m: &TransportMessage) -> pmcp::Result<()> {
        let (n, t) = of_message(m);
        let (_, fails) = self.see("send", n, t).await;
        self.end(fails)
    }
    async fn on_receive(&self, m: &TransportMessage) -> pmcp::Result<()> {
        let (n, t) = of_message(m);
        let (_, fails) = self.see("receive", n, t).await;
        self.end(fails)
    }
}
struct Sut {
    c: RefCell<Arc<MiddlewareChain>>,
    list: RefCell<Vec<Arc<dyn Middleware>>>,
    seen: Seen,
    n: RefCell<i64>,
    slow: bool,
}
impl Sut {
    fn new(c: &Value) -> Rc<Self> {
        Rc::new(Sut { c: RefCell::new(Arc::new(MiddlewareChain::new())), list: Default::default(), seen: Default::default(), n: RefCell::new(0), slow: c["slow"] == true })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        if s(&op, "e") == "add" {
            let k = self.list.borrow().len();
            let m: Arc<dyn Middleware> = if s(&op, "id") == "builtin" {
                match k % 3 {
                    0 => Arc::new(LoggingMiddleware::default()),
                    1 => Arc::new(AuthMiddleware::new("secret".into())),
                    _ => Arc::new(RetryMiddleware::default()),
                }
            } else {
                Arc::new(Stub { id: s(&op, "id").into(), acts: op["acts"].clone(), seen: self.seen.clone(), slow: self.slow })
            };
            self.list.borrow_mut().push(m.clone());
            match Arc::get_mut(&mut self.c.borrow_mut()) {
                Some(c) => c.add(m),
                None => return kind("busy"),
            }
            return kind("ok");
        }
        let n = {
            let mut n = self.n.borrow_mut();
            *n += 1;
            *n
        };
        let c = self.c.borrow().clone();
        let msg = op["msg"].clone();
        let id = if n % 2 == 0 { RequestId::Number(n) } else { RequestId::String(n.to_string()) };
        let (r, left) = match s(&op, "q") {
            "request" => {
                let mut q = JSONRPCRequest { jsonrpc: "2.0".into(), id: id.clone(), method: "m".into(), params: Some(json!({"trail":msg})) };
                let r = c.process_request(&mut q).await;
                let same = q.id == id && q.method == "m" && q.jsonrpc == "2.0";
                (r, if same { trail(q.params.as_ref()) } else { json!(["changed"]) })
            }
            "response" => {
                let mut q = if n % 3 == 0 {
                    JSONRPCResponse::error(id.clone(), pmcp::types::jsonrpc::JSONRPCError { code: -1, message: "e".into(), data: Some(json!({"trail":msg})) })
                } else {
                    JSONRPCResponse::success(id.clone(), json!({"trail":msg}))
                };
                let r = c.process_response(&mut q).await;
                (r, if q.id == id { of_response(&q) } else { json!(["changed"]) })
            }
            q => {
                let m = match n % 3 {
                    0 => TransportMessage::Request {
                        id,
                        request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":"t","arguments":{"trail":msg}}})).unwrap())),
                    },
                    1 => TransportMessage::Response(JSONRPCResponse::success(id, json!({"trail":msg}))),
                    _ => TransportMessage::Notification(Notification::Progress(ProgressNotification {
                        progress_token: ProgressToken::Number(n),
                        progress: 1.0,
                        message: Some(msg.to_string()),
                    })),
                };
                let r = if q == "send" { c.process_send(&m).await } else { c.process_receive(&m).await };
                (r, of_message(&m).1)
            }
        };
        let seen = self.seen.lock().unwrap().remove(&n).unwrap_or_default();
        match r {
            Ok(()) => json!({"k":"ok","by":"","msg":left,"seen":seen}),
            Err(e) => json!({"k":"err","by":e.to_string().rsplit(' ').next().unwrap(),"msg":left,"seen":seen}),
        }
    }
}
const KINDS: &[&str] = &["request", "response", "send", "receive"];
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let init = json!({"e":"init"});
    let pr = |q: &str, m: &str| json!({"e":"process","q":q,"msg":[m]});
    let add = |id: &str, acts: Value| json!({"e":"add","id":id,"acts":acts});
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), false));
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let (mut k, fails) = (0, r.below(3));
                let ops: Vec<Value> = (0..5 + r.below(25))
                    .map(|n| {
                        if n < 2 || r.chance(1, 3) {
                            k += 1;
                            let acts: serde_json::Map<String, Value> = KINDS
                                .iter()
                                .map(|q| (q.to_string(), json!(if r.chance(fails as u64, 10) { *r.pick(&["fail", "markfail"]) } else { *r.pick(&["pass", "mark", "mark"]) })))
                                .collect();
                            if r.chance(1, 6) {
                                add("builtin", json!({"request":"pass","response":"pass","send":"pass","receive":"pass"}))
                            } else {
                                add(&format!("w{k}"), Value::Object(acts))
                            }
                        } else {
                            pr(r.pick(KINDS), "m")
                        }
                    })
                    .collect();
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&init)), init.clone(), ops, false));
            }
        }
        // several messages under way at once
        "conc" => {
            let c = json!({"e":"init","slow":true});
            let all = |a: &str| json!({"request":a,"response":a,"send":a,"receive":a});
            let pre = vec![add("w1", all("mark")), add("w2", json!({"request":"markfail","response":"mark","send":"fail","receive":"mark"})), add("w3", all("mark"))];
            let sets = vec![
                vec![vec![pr("request", "a")], vec![pr("request", "b")]],
                vec![vec![pr("response", "a"), pr("send", "b")], vec![pr("response", "c")]],
                vec![vec![pr("receive", "a")], vec![pr("receive", "b")], vec![pr("request", "c")]],
            ];
            play_conc(o, &|c| mk_exec!(Sut::new(c)), &c, &pre, &sets, &[pr("response", "z")]);
        }
        f => panic!("family {f}"),
    }
}
