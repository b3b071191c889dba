//! Event store and session resumption (P16).
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use chrono::{DateTime, Duration, Utc};
use pmcp::shared::event_store::*;
use pmcp::shared::TransportMessage;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn at(ms: i64) -> DateTime<Utc> {
    DateTime::<Utc>::from_timestamp(1_800_000_000, 0).unwrap() + Duration::milliseconds(ms)
}
/// A message that carries a tag; its shape depends on the tag.
fn message(tag: &str) -> TransportMessage {
    use pmcp::types::{protocol::*, *};
    let h: usize = tag.bytes().map(usize::from).sum();
    match h % 4 {
        0 => TransportMessage::Request {
            id: RequestId::String(tag.into()),
            request: Request::Client(Box::new(ClientRequest::Ping)),
        },
        1 => TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: tag.into() }))),
        2 => TransportMessage::Response(JSONRPCResponse::success(RequestId::String(tag.into()), json!({"v":[1,2]}))),
        _ => TransportMessage::Request {
            id: RequestId::Number(7),
            request: Request::Client(Box::new(serde_json::from_value(json!({"method":"tools/call","params":{"name":tag,"arguments":{"a":1}}})).unwrap())),
        },
    }
}
fn tag_of(m: &TransportMessage) -> String {
    use pmcp::types::{protocol::*, *};
    let t = match m {
        TransportMessage::Request { id: RequestId::String(t), .. } => t.clone(),
        TransportMessage::Request { request: Request::Client(c), .. } => match &**c {
            ClientRequest::CallTool(p) => p.name.clone(),
            _ => String::new(),
        },
        TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(p))) => p.uri.clone(),
        TransportMessage::Response(r) => match &r.id {
            RequestId::String(t) => t.clone(),
            RequestId::Number(_) => String::new(),
        },
        _ => String::new(),
    };
    if format!("{:?}", message(&t)) == format!("{m:?}") {
        t
    } else {
        format!("changed: {m:?}")
    }
}
/// A store that takes its time, can fail, and sees under which id each message is kept.
struct Slow {
    inner: InMemoryEventStore,
    fail: Mutex<Vec<String>>,
    ids: Mutex<HashMap<String, String>>,
    slow: AtomicBool,
}
impl Slow {
    async fn wait(&self) {
        if self.slow.load(SeqCst) {
            tokio::task::yield_now().await;
        }
    }
}
#[async_trait]
impl EventStore for Slow {
    async fn store_event(&self, event: StoredEvent) -> pmcp::Result<()> {
        self.wait().await;
        let tag = tag_of(&event.message);
        if self.fail.lock().unwrap().contains(&tag) {
            return Err(pmcp::Error::internal("store is full"));
        }
        self.ids.lock().unwrap().insert(tag, event.id.clone());
        let r = self.inner.store_event(event).await;
        self.wait().await;
        r
    }
    async fn get_events_since(&self, id: &str, limit: Option<usize>) -> pmcp::Result<Vec<StoredEvent>> {
        self.wait().await;
        let r = self.inner.get_events_since(id, limit).await;
        self.wait().await;
        r
    }
    async fn get_latest_event_id(&self) -> pmcp::Result<Option<String>> {
        self.inner.get_latest_event_id().await
    }
    async fn clear_events_before(&self, t: DateTime<Utc>) -> pmcp::Result<usize> {
        self.inner.clear_events_before(t).await
    }
    async fn create_resumption_token(&self) -> pmcp::Result<ResumptionToken> {
        self.inner.create_resumption_token().await
    }
    async fn create_session_token(&self, session_id: &str) -> pmcp::Result<ResumptionToken> {
        self.inner.create_session_token(session_id).await
    }
    async fn validate_resumption_token(&self, token: &str) -> pmcp::Result<Option<ResumptionState>> {
        self.wait().await;
        self.inner.validate_resumption_token(token).await
    }
}
struct Sut {
    store: Arc<Slow>,
    mgr: HashMap<String, ResumptionManager>,
    toks: RefCell<HashMap<String, String>>,
}
impl Sut {
    fn new(c: &Value) -> Rc<Self> {
        virtual_clock(true);
        let store = Arc::new(Slow {
            inner: InMemoryEventStore::new(i(c, "max") as usize, Duration::milliseconds(i(c, "age"))),
            fail: Default::default(),
            ids: Default::default(),
            slow: AtomicBool::new(c["slow"] == true),
        });
        let mgr = c["managers"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(m, v)| (m.clone(), ResumptionManager::new(store.clone(), v.as_str().unwrap().into())))
            .collect();
        Rc::new(Sut { store, mgr, toks: Default::default() })
    }
    fn id(&self, tag: &str) -> String {
        self.store.ids.lock().unwrap().get(tag).cloned().unwrap_or_else(|| tag.into())
    }
    fn name(&self, id: &str) -> String {
        self.store.ids.lock().unwrap().iter().find(|x| x.1 == id).map_or_else(|| format!("?{id}"), |x| x.0.clone())
    }
    fn list(&self, r: pmcp::Result<Vec<StoredEvent>>) -> Value {
        match r {
            Ok(l) => json!({"k":"ok","l": l.iter().map(|e| json!({
                "id": if self.name(&e.id) == tag_of(&e.message) { tag_of(&e.message) } else { format!("{} under another id", tag_of(&e.message)) },
                "s":e.session_id,"dir": if e.direction == MessageDirection::Outbound {"out"} else {"in"},
                "seq":e.sequence,"ts":rel_ms(e.timestamp)})).collect::<Vec<_>>()}),
            Err(_) => kind("err"),
        }
    }
    fn token(&self, n: &str, r: pmcp::Result<ResumptionToken>) -> Value {
        match r {
            Ok(t) => {
                self.toks.borrow_mut().insert(n.into(), t.token);
                json!({"k":"ok","s":t.session_id,"last":self.name(&t.last_event_id),"at":rel_ms(t.created_at),"exp":rel_ms(t.expires_at)})
            }
            Err(_) => kind("err"),
        }
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let m = || &self.mgr[s(&op, "m")];
        let tok = || self.toks.borrow().get(s(&op, "n")).cloned().unwrap_or_else(|| "no-such-token".into());
        match s(&op, "e") {
            "store" => {
                let tag = s(&op, "id");
                let r = self
                    .store
                    .store_event(StoredEvent {
                        id: format!("id-{tag}"),
                        timestamp: at(i(&op, "ts")),
                        message: message(tag),
                        direction: if s(&op, "dir") == "out" { MessageDirection::Outbound } else { MessageDirection::Inbound },
                        session_id: s(&op, "s").into(),
                        sequence: i(&op, "seq") as u64,
                    })
                    .await;
                kind(if r.is_ok() { "ok" } else { "err" })
            }
            "rec" => {
                let tag = s(&op, "id");
                if b(&op, "fail") {
                    self.store.fail.lock().unwrap().push(tag.into());
                }
                let r = if s(&op, "dir") == "out" { m().record_outbound(message(tag)).await } else { m().record_inbound(message(tag)).await };
                self.store.fail.lock().unwrap().retain(|x| x != tag);
                kind(if r.is_ok() { "ok" } else { "err" })
            }
            "since" => {
                let l = i(&op, "lim");
                let r = self.store.get_events_since(&self.id(s(&op, "id")), usize::try_from(l).ok()).await;
                self.list(r)
            }
            "look" => self.list(self.store.inner.get_events_since("nothing", None).await),
            "latest" => match self.store.get_latest_event_id().await {
                Ok(Some(id)) => json!({"k":"ok","id":self.name(&id)}),
                Ok(None) => kind("none"),
                Err(_) => kind("err"),
            },
            "clear" => json!({"k":"ok","n":self.store.clear_events_before(at(i(&op, "ts"))).await.map_or(-1, |n| n as i64)}),
            "token" => {
                let r = m().create_token().await;
                self.token(s(&op, "n"), r)
            }
            "stoken" => {
                let r = self.store.create_resumption_token().await;
                self.token(s(&op, "n"), r)
            }
            "check" => match self.store.validate_resumption_token(&tok()).await {
                Ok(Some(t)) => json!({"k":"ok","s":t.session_id,"last":self.name(&t.last_event_id),"next":t.next_sequence}),
                Ok(None) => kind("none"),
                Err(_) => kind("err"),
            },
            "resume" => {
                let r = m().resume_from_token(&tok()).await;
                self.list(r)
            }
            "pending" => {
                let r = m().get_pending_events(&self.id(s(&op, "id"))).await;
                self.list(r)
            }
            "advance" => {
                vadvance_ms(i(&op, "d"));
                kind("ok")
            }
            e => panic!("op {e}"),
        }
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let rec = |m: &str, dir: &str, id: &str, fail: bool| json!({"e":"rec","m":m,"dir":dir,"id":id,"fail":fail});
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                let looks = sc.len() % 2 == 0;
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), looks));
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let c = json!({"e":"init","max": *r.pick(&[0, 1, 2, 5, 8, 1000]),"age": *r.pick(&[0, 50, 1000, 90_000_000, 2_000_000_000]),
                    "managers":{"a1":"A","a2":"A","b1":"B","c1":"C"}});
                let (mut ids, mut toks) = (vec!["nothing".to_string()], vec!["t0".to_string()]);
                let (mut now, n) = (0i64, 15 + r.below(60));
                let busy = r.chance(1, 2);
                let ops: Vec<Value> = (0..n)
                    .map(|k| {
                        let m = *r.pick(&["a1", "a1", "a2", "b1", "b1", "c1"]);
                        let dir = *r.pick(&["in", "out"]);
                        let id = r.pick(&ids).clone();
                        match r.below(if busy { 14 } else { 20 }) {
                            0..=6 => {
                                let fail = r.chance(1, 10);
                                ids.push(format!("e{k}"));
                                rec(m, dir, &format!("e{k}"), fail)
                            }
                            7 => {
                                ids.push(format!("e{k}"));
                                json!({"e":"store","id":format!("e{k}"),"s": *r.pick(&["A","B","D"]),"dir":dir,"seq": *r.pick(&[0, 3, 17, 1000]),"ts": now - *r.pick(&[0, 0, 20, 70, 2000])})
                            }
                            8 => {
                                toks.push(format!("t{k}"));
                                json!({"e":"token","m":m,"n":format!("t{k}")})
                            }
                            9 | 10 => json!({"e":"resume","m":m,"n":r.pick(&toks)}),
                            11 => json!({"e":"pending","m":m,"id":id}),
                            12 => json!({"e":"since","id":id,"lim": *r.pick(&[-1, -1, 0, 1, 2, 5])}),
                            13 => {
                                let d = *r.pick(&[10, 30, 60, 200, 1100, 86_400_000, 1]);
                                if now + d > 1_900_000_000 {
                                    return json!({"e":"latest"});
                                }
                                now += d;
                                json!({"e":"advance","d":d})
                            }
                            14 => {
                                toks.push(format!("t{k}"));
                                json!({"e":"stoken","n":format!("t{k}")})
                            }
                            15 => json!({"e":"check","n":r.pick(&toks)}),
                            16 => json!({"e":"clear","ts": now - *r.pick(&[0, 0, 10, 100, 1500, -1])}),
                            17 => json!({"e":"latest"}),
                            18 => json!({"e":"since","id":id,"lim":-1}),
                            _ => json!({"e":"pending","m":m,"id":id}),
                        }
                    })
                    .collect();
                let looks = r.chance(1, 3);
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&c)), c, ops, looks));
            }
        }
        // several tasks record in one session, resume and look at a store that takes its time
        "conc" => {
            let c = json!({"e":"init","max":100,"age":1_000_000,"managers":{"a1":"A","a2":"A","b1":"B"},"slow":true});
            let res = |m: &str| json!({"e":"resume","m":m,"n":"t1"});
            let pend = |m: &str| json!({"e":"pending","m":m,"id":"x1"});
            let sets = vec![
                vec![vec![rec("a1", "out", "y1", false), rec("a1", "in", "y2", false)], vec![rec("a1", "out", "z1", false), rec("a1", "in", "z2", false)]],
                vec![vec![rec("a1", "out", "y1", true), rec("a1", "in", "y2", false)], vec![rec("a1", "in", "z1", false)], vec![rec("b1", "in", "w1", false)]],
                vec![vec![rec("a1", "out", "y1", false)], vec![rec("a1", "out", "z1", true)], vec![pend("a1")]],
                vec![vec![res("a2"), rec("a2", "out", "y1", false)], vec![res("a2"), rec("a2", "out", "z1", false)]],
                vec![vec![res("a2")], vec![rec("a2", "out", "z1", false), rec("a2", "in", "z2", false)], vec![rec("b1", "out", "w1", false)]],
            ];
            let pre = vec![rec("a1", "out", "x1", false), json!({"e":"token","m":"a1","n":"t1"}), rec("b1", "out", "x2", false), rec("a1", "out", "x3", false)];
            let look = json!({"e":"look"});
            let post = vec![look.clone(), rec("a1", "in", "v1", false), rec("a2", "in", "v2", false), look];
            play_conc(o, &|c| mk_exec!(Sut::new(c)), &c, &pre, &sets, &post);
        }
        f => panic!("family {f}"),
    }
}
