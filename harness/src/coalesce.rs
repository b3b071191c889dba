//! Notification debouncers and batchers (P13, P14).
use crate::core::*;
use crate::mk_exec;
use pmcp::server::notification_debouncer::{NotificationBatcher, NotificationDebouncer, NotificationDebouncerConfig};
use pmcp::types::protocol::*;
use pmcp::utils::{BatchingConfig, DebouncingConfig, MessageBatcher, MessageDebouncer};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;
use tokio::sync::mpsc;

fn note(key: &str, v: i64) -> ServerNotification {
    let mk = |v: Value| serde_json::from_value::<ServerNotification>(v).expect("notification");
    match key {
        "tools" => ServerNotification::ToolsChanged,
        "prompts" => ServerNotification::PromptsChanged,
        "resources" => ServerNotification::ResourcesChanged,
        "roots" => ServerNotification::RootsListChanged,
        "log" => mk(json!({"method":"notifications/message","params":{"level":"info","message":format!("{v}")}})),
        k if k.starts_with('p') => mk(json!({"method":"notifications/progress","params":{"progressToken":k,"progress":v as f64}})),
        k => ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: k.into() }),
    }
}
fn seen(n: &ServerNotification) -> (String, i64) {
    match n {
        ServerNotification::ToolsChanged => ("tools".into(), 0),
        ServerNotification::PromptsChanged => ("prompts".into(), 0),
        ServerNotification::ResourcesChanged => ("resources".into(), 0),
        ServerNotification::RootsListChanged => ("roots".into(), 0),
        ServerNotification::LogMessage(m) => ("log".into(), m.message.parse().unwrap_or(-1)),
        ServerNotification::Progress(p) => {
            let t = serde_json::to_value(&p.progress_token).unwrap();
            (t.as_str().map(String::from).unwrap_or_else(|| t.to_string()), p.progress as i64)
        }
        ServerNotification::ResourceUpdated(p) => (p.uri.clone(), 0),
    }
}
/// The kind of a key, as the configuration of the debouncer calls it.
pub fn type_of(key: &str) -> &'static str {
    match key {
        "resources" => "resources/list_changed",
        "log" => "log",
        k if k.starts_with("pr") => "other",
        k if k.starts_with('p') => "progress",
        _ => "other",
    }
}
fn server(n: &Notification) -> (String, i64) {
    match n {
        Notification::Server(n) => seen(n),
        n => (format!("{n:?}"), -1),
    }
}
enum M {
    Nd(RefCell<Option<NotificationDebouncer>>, RefCell<mpsc::Receiver<ServerNotification>>),
    Nb(NotificationBatcher, RefCell<mpsc::Receiver<Vec<ServerNotification>>>),
    Mb(MessageBatcher),
    Md(MessageDebouncer),
}
struct Sut {
    m: M,
    room: bool,
    got: RefCell<Vec<Value>>,
    started: Cell<bool>,
}
fn ms(c: &Value, k: &str) -> Duration {
    Duration::from_millis(i(c, k) as u64)
}
impl Sut {
    fn new(c: &Value) -> Rc<Self> {
        let room = i(c, "room") as usize;
        let iv: HashMap<String, Duration> =
            c["iv"].as_object().unwrap().iter().filter(|(k, _)| *k != "-").map(|(k, v)| (k.clone(), Duration::from_millis(v.as_i64().unwrap() as u64))).collect();
        let m = match s(c, "api") {
            "nd" => {
                let (tx, rx) = mpsc::channel(room);
                let d = NotificationDebouncer::new(
                    NotificationDebouncerConfig {
                        default_interval: ms(c, "dflt"),
                        type_intervals: iv,
                        max_batch_size: i(c, "cap") as usize,
                        enable_merging: b(c, "merge"),
                        max_wait_time: ms(c, "maxwait"),
                    },
                    tx,
                );
                M::Nd(RefCell::new(Some(d)), RefCell::new(rx))
            }
            "nb" => {
                let (tx, rx) = mpsc::channel(room);
                M::Nb(NotificationBatcher::new(i(c, "cap") as usize, ms(c, "maxwait"), tx), RefCell::new(rx))
            }
            "mb" => M::Mb(MessageBatcher::new(BatchingConfig { max_batch_size: i(c, "cap") as usize, max_wait_time: ms(c, "maxwait"), batched_methods: vec![] })),
            "md" => M::Md(MessageDebouncer::new(DebouncingConfig { wait_time: ms(c, "dflt"), debounced_methods: iv })),
            a => panic!("api {a}"),
        };
        Rc::new(Sut { m, room: room < 50, got: Default::default(), started: Cell::new(false) })
    }
    async fn begin(&self, c: &Value) {
        if self.started.replace(true) || !b(c, "on") {
            return;
        }
        match &self.m {
            M::Nd(d, _) => d.borrow_mut().as_mut().unwrap().start().await.unwrap(),
            M::Mb(m) => m.start_timer(),
            _ => {}
        }
        settle().await;
    }
    /// Takes one delivery that is there.
    fn take(&self) -> bool {
        let v = match &self.m {
            M::Nd(_, rx) => match rx.borrow_mut().try_recv() {
                Ok(n) => {
                    let (k, v) = seen(&n);
                    json!({"key":k,"vs":[v]})
                }
                Err(_) => return false,
            },
            M::Nb(_, rx) => match rx.borrow_mut().try_recv() {
                Ok(ns) => {
                    let ks: Vec<(String, i64)> = ns.iter().map(seen).collect();
                    let key = if ks.iter().all(|x| x.0 == ks[0].0) { ks.first().map(|x| x.0.clone()).unwrap_or_default() } else { "mixed".into() };
                    json!({"key":key,"vs":ks.iter().map(|x| x.1).collect::<Vec<_>>()})
                }
                Err(_) => return false,
            },
            M::Mb(m) => {
                let w: std::task::Waker = std::task::Waker::noop().clone();
                let f = m.receive_batch();
                let mut f = std::pin::pin!(f);
                match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
                    Poll::Ready(Some(ns)) => json!({"key":"","vs":ns.iter().map(|n| server(n).1).collect::<Vec<_>>()}),
                    _ => return false,
                }
            }
            M::Md(m) => {
                let w: std::task::Waker = std::task::Waker::noop().clone();
                let f = m.receive();
                let mut f = std::pin::pin!(f);
                match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
                    Poll::Ready(Some(n)) => {
                        let (k, v) = server(&n);
                        json!({"key":k,"vs":[v]})
                    }
                    _ => return false,
                }
            }
        };
        self.got.borrow_mut().push(v);
        true
    }
    /// Runs an operation that may wait for room in the output, making room when it does.
    async fn pumped<T>(&self, f: impl Future<Output = T>) -> T {
        let mut f = std::pin::pin!(f);
        std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(v),
            Poll::Pending => {
                if self.room {
                    self.take();
                }
                Poll::Pending
            }
        })
        .await
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        match s(&op, "e") {
            "begin" => {
                self.begin(&op["c"]).await;
                kind("ok")
            }
            "add" => {
                let (k, v) = (s(&op, "key"), i(&op, "v"));
                let r = match &self.m {
                    M::Nd(d, _) => {
                        let g = d.borrow();
                        self.pumped(g.as_ref().unwrap().submit(note(k, v))).await
                    }
                    M::Nb(m, _) => self.pumped(m.add(note(k, v))).await,
                    M::Mb(m) => self.pumped(m.add(Notification::Server(note("log", v)))).await,
                    M::Md(m) => self.pumped(m.add(k.into(), Notification::Server(note(k, v)))).await,
                };
                kind(if r.is_ok() { "ok" } else { "err" })
            }
            "fill" => {
                let (k, v) = (s(&op, "key"), i(&op, "v"));
                let mut fine = true;
                for v in v..v + i(&op, "n") {
                    fine &= match &self.m {
                        M::Nb(m, _) => self.pumped(m.add(note(k, v))).await.is_ok(),
                        M::Mb(m) => self.pumped(m.add(Notification::Server(note("log", v)))).await.is_ok(),
                        _ => false,
                    };
                }
                kind(if fine { "ok" } else { "err" })
            }
            "time" => {
                let d = i(&op, "d");
                advance(d, if d > 1000 { d / 10 } else { 10 }).await;
                kind("ok")
            }
            "flush" => {
                match &self.m {
                    M::Nd(d, _) => {
                        let g = d.borrow();
                        self.pumped(g.as_ref().unwrap().flush()).await.unwrap();
                    }
                    M::Nb(m, _) => self.pumped(m.flush()).await.unwrap(),
                    M::Md(m) => {
                        let v: Vec<Value> = m
                            .flush()
                            .await
                            .iter()
                            .map(|n| {
                                let (k, v) = server(n);
                                json!({"key":k,"vs":[v]})
                            })
                            .collect();
                        return json!({"k":"ok","got":v});
                    }
                    M::Mb(_) => {}
                }
                kind("ok")
            }
            "stop" => {
                if let M::Nd(d, _) = &self.m {
                    d.borrow_mut().as_mut().unwrap().stop().await;
                    settle().await;
                }
                kind("ok")
            }
            "stats" => match &self.m {
                M::Nd(d, _) => {
                    let g = d.borrow();
                    json!({"k":"ok","keys":g.as_ref().unwrap().stats().await.pending_count})
                }
                _ => kind("ok"),
            },
            "look" => {
                let mut idle = 0;
                while idle < 3 {
                    settle().await;
                    if self.take() {
                        idle = 0;
                    } else {
                        idle += 1;
                    }
                }
                json!({"k":"ok","out":std::mem::take(&mut *self.got.borrow_mut())})
            }
            e => panic!("op {e}"),
        }
    }
}
/// The machine has started before the first operation of the trace.
fn begun(c: &Value, ex: Exec) -> Exec {
    let c = json!({"e":"begin","c":c});
    let first = Rc::new(Cell::new(true));
    Rc::new(move |op: Value| -> Fut {
        if first.replace(false) {
            let (ex, c) = (ex.clone(), c.clone());
            Box::pin(async move {
                ex(c).await;
                ex(op).await
            })
        } else {
            ex(op)
        }
    })
}
const ND: &[&str] = &["p1", "p2", "r1", "r2", "tools", "prompts", "resources", "roots", "log"];
fn valued(k: &str) -> bool {
    k == "log" || k == "p1" || k == "p2"
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                paused_rt().block_on(play_seq(o, begun(&sc[0], mk_exec!(Sut::new(&sc[0]))), sc[0].clone(), sc[1..].to_vec(), true));
            }
        }
        f if f.starts_with("rand") => {
            let apis: &[&str] = if f == "randn" { &["nd", "nd", "nb"] } else { &["mb", "md"] };
            for _ in 0..o.n {
                let api = *r.pick(apis);
                let deb = api.ends_with('d');
                let iv = if r.chance(1, 3) {
                    json!({"-":0})
                } else if api == "nd" {
                    json!({"progress": *r.pick(&[50, 100, 400]), "log": *r.pick(&[0, 50, 300]), "resources/list_changed": *r.pick(&[50, 250, 500])})
                } else {
                    json!({"p1": *r.pick(&[0, 20, 70, 300]), "tools": *r.pick(&[10, 30, 500])})
                };
                let c = json!({"e":"init","api":api,"kind": if deb {"deb"} else {"bat"},"merge":r.chance(1,2) && api=="nd",
                    "cap": *r.pick(&[0, 1, 2, 3, 5, 100]),"iv":iv,"dflt": *r.pick(&[0, 30, 50, 120, 250]),
                    "maxwait": if api == "md" { 1_000_000 } else { *r.pick(&[50, 100, 150, 400, 5000]) },
                    "slack": if api == "nd" { 50 } else { 2 },"direct":api=="md","room":*r.pick(&[100, 100, 1, 3]),"on":true});
                let nk = 1 + r.below(4);
                let keys: Vec<&str> = if api == "mb" { vec![""] } else { (0..nk).map(|_| *r.pick(ND)).collect() };
                let n = 10 + r.below(50);
                let mut stopped = false;
                let mut ops: Vec<Value> = (0..n)
                    .map(|k| match r.below(12) {
                        0..=5 => {
                            let key = *r.pick(&keys);
                            let ty = if api == "md" { key } else { type_of(key) };
                            json!({"e":"add","key":key,"ty":ty,"v": if key.is_empty() || valued(key) { k as i64 + 1 } else { 0 }})
                        }
                        6..=8 => json!({"e":"time","d": *r.pick(&[10, 20, 30, 50, 50, 70, 100, 250, 600])}),
                        9 if api != "mb" => json!({"e":"flush"}),
                        10 if api == "nd" && !stopped && r.chance(1, 4) => {
                            stopped = true;
                            json!({"e":"stop"})
                        }
                        10 if api == "nd" => json!({"e":"stats"}),
                        _ => json!({"e":"look"}),
                    })
                    .collect();
                let mut c = c;
                let looks = i(&c, "room") > 50 || r.chance(1, 2);
                if i(&c, "room") < 50 {
                    // who reads late is served late
                    c["slack"] = json!(100_000);
                    if !looks {
                        ops.truncate(18);
                    }
                    for _ in 0..4 {
                        ops.push(json!({"e":"time","d":6000}));
                        ops.push(json!({"e":"look"}));
                    }
                    ops.push(json!({"e":"time","d":100_000}));
                } else {
                    ops.push(json!({"e":"time","d":6000}));
                }
                ops.push(json!({"e":"look"}));
                paused_rt().block_on(play_seq(o, begun(&c, mk_exec!(Sut::new(&c))), c, ops, looks));
            }
        }
        // nobody reads while very many messages come
        "many" => {
            for _ in 0..o.n {
                let api = *r.pick(&["mb", "mb", "nb"]);
                let cap = *r.pick(&[2, 2, 3, 7]);
                let key = if api == "mb" { "" } else { "p1" };
                let ty = if api == "mb" { "" } else { "progress" };
                let c = json!({"e":"init","api":api,"kind":"bat","merge":false,"cap":cap,"iv":{"-":0},"dflt":50,
                    "maxwait": *r.pick(&[50, 100, 400]),"slack":2,"direct":false,"room":100,"on":true});
                let full = *r.pick(&[100, 100, 99, 64]);
                let mut v = 1;
                let mut ops = vec![];
                for _ in 0..2 {
                    let n = full * cap;
                    ops.push(json!({"e":"fill","key":key,"ty":ty,"v":v,"n":n}));
                    v += n;
                    let part = 1 + r.below(cap as usize - 1) as i64;
                    for _ in 0..part {
                        ops.push(json!({"e":"add","key":key,"ty":ty,"v":v}));
                        v += 1;
                    }
                    ops.push(json!({"e":"time","d":600}));
                    ops.push(json!({"e":"look"}));
                    ops.push(json!({"e":"add","key":key,"ty":ty,"v":v}));
                    v += 1;
                    ops.push(json!({"e":"time","d":600}));
                    ops.push(json!({"e":"look"}));
                }
                paused_rt().block_on(play_seq_n(o, 50_000, begun(&c, mk_exec!(Sut::new(&c))), c, ops, false));
            }
        }
        f if f.starts_with("conc") => {
            let add = |k: &str, ty: &str, v: i64| json!({"e":"add","key":k,"ty":ty,"v":v});
            let t = |d: i64| json!({"e":"time","d":d});
            let e = |x: &str| json!({"e":x});
            let cfg = |api: &str, merge: bool, cap: i64, room: i64, dflt: i64, maxwait: i64| {
                json!({"e":"init","api":api,"kind": if api.ends_with('d') {"deb"} else {"bat"},"merge":merge,"cap":cap,"iv":{"-":0},"dflt":dflt,
                    "maxwait":maxwait,"slack":100_000,"direct":api=="md","room":room,"on":true})
            };
            let post = vec![t(300), t(110_000), e("look")];
            let pa = |v| add("p1", "progress", v);
            let pb = |v| add("p2", "progress", v);
            if f == "concn" {
                for (merge, room) in [(false, 100), (true, 100), (true, 1)] {
                    let c = cfg("nd", merge, 5, room, 100, 100_000);
                    let sets = vec![
                        vec![vec![pa(4), e("flush")], vec![t(50), pa(5)]],
                        vec![vec![pa(4)], vec![t(50)], vec![e("flush")]],
                        vec![vec![e("flush")], vec![e("flush"), pa(6)], vec![t(100), pa(7)]],
                    ];
                    play_conc(o, &|c| begun(c, mk_exec!(Sut::new(c))), &c, &[pa(1), pa(2), pa(3), t(50)], &sets, &post);
                }
                // the timer is in the middle of its deliveries
                let c = cfg("nd", true, 5, 1, 100, 100_000);
                let sets = vec![vec![vec![pa(4), e("flush")]], vec![vec![pa(4)], vec![e("flush")]], vec![vec![t(100)], vec![pa(4), e("flush"), pa(5)]]];
                play_conc(o, &|c| begun(c, mk_exec!(Sut::new(c))), &c, &[pa(1), pa(2), pa(3), t(100)], &sets, &post);
                for room in [100, 1] {
                    let c = cfg("nb", false, 2, room, 50, 50);
                    let sets = vec![
                        vec![vec![pa(2), pa(3)], vec![pa(4), pa(5)]],
                        vec![vec![pa(2)], vec![t(50)], vec![pa(4)]],
                        vec![vec![pa(2), pa(3)], vec![pb(4), e("flush")], vec![t(50), pa(5)]],
                    ];
                    play_conc(o, &|c| begun(c, mk_exec!(Sut::new(c))), &c, &[pa(1)], &sets, &post);
                }
            } else {
                let m = |v| add("", "", v);
                let c = cfg("mb", false, 2, 100, 50, 50);
                let sets = vec![
                    vec![vec![m(2), m(3)], vec![m(4), m(5)]],
                    vec![vec![m(2)], vec![t(50)], vec![m(4)], vec![m(5)]],
                    vec![vec![m(2), m(3)], vec![t(50), m(5)]],
                ];
                play_conc(o, &|c| begun(c, mk_exec!(Sut::new(c))), &c, &[m(1)], &sets, &post);
                let c = cfg("md", false, 0, 100, 50, 1_000_000);
                let post = vec![t(20), pa(9), t(20), e("look"), t(20), e("look"), pa(10), t(30), e("look"), t(200), t(100_000), e("look")];
                let sets = vec![
                    vec![vec![pa(2)], vec![t(10), t(40)]],
                    vec![vec![pa(2), t(20)], vec![t(20), pa(3)]],
                    vec![vec![e("flush")], vec![t(10)], vec![pa(2)]],
                    vec![vec![pa(2)], vec![pa(3)], vec![t(20), t(20)]],
                    vec![vec![pa(2), e("flush")], vec![t(10), pb(3)]],
                ];
                play_conc(o, &|c| begun(c, mk_exec!(Sut::new(c))), &c, &[pa(1), t(40)], &sets, &post);
            }
        }
        f => panic!("family {f}"),
    }
}
