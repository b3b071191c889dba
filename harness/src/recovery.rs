//! Reconnection policy and error recovery (P17, P18).
use crate::core::*;
use crate::mk_exec;
use pmcp::error::recovery::*;
use pmcp::shared::reconnect::*;
use pmcp::{Error, ErrorCode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn ms(v: &Value) -> Duration {
    Duration::from_millis(v.as_u64().unwrap())
}
/// Lets time pass until a future is done; None if it takes longer than `limit`.
async fn drive<T>(limit: i64, f: impl Future<Output = T>) -> Option<T> {
    tokio::select! {
        biased;
        v = f => Some(v),
        _ = async {
            let end = vnow_ms() + limit;
            settle_n(10).await;
            while vnow_ms() < end {
                vadvance_ms(1);
                tokio::time::advance(Duration::from_millis(1)).await;
                settle_n(8).await;
            }
        } => None,
    }
}

// ---------------------------------------------------------------- reconnection
struct Rec {
    m: Arc<ReconnectManager>,
    cbs: Arc<Mutex<Vec<String>>>,
}
impl Rec {
    fn new(c: &Value) -> Rc<Self> {
        virtual_clock(true);
        let n = |k: &str| usize::try_from(i(c, k)).ok().map(|v| v as u32);
        let mut m = ReconnectManager::new(ReconnectConfig {
            initial_delay: ms(&c["init"]),
            max_delay: ms(&c["max"]),
            growth_factor: i(c, "num") as f64 / i(c, "den") as f64,
            max_retries: n("retries"),
            jitter_factor: i(c, "jit") as f64 / 100.0,
            reset_on_success: b(c, "reset"),
            success_threshold: ms(&c["minup"]),
            circuit_breaker_threshold: n("brk"),
            circuit_breaker_timeout: ms(&c["brkto"]),
        });
        let cbs: Arc<Mutex<Vec<String>>> = Default::default();
        if b(c, "watch") {
            let note = |s: &'static str| {
                let l = cbs.clone();
                Some(Box::new(move || l.lock().unwrap().push(s.into())) as Box<dyn Fn() + Send + Sync>)
            };
            let (l, f) = (cbs.clone(), cbs.clone());
            m.set_callbacks(ReconnectCallbacks {
                on_connecting: Some(Box::new(move |n| l.lock().unwrap().push(format!("connecting{n}")))),
                on_connected: note("connected"),
                on_failed: Some(Box::new(move |_| f.lock().unwrap().push("failed".into()))),
                on_circuit_open: note("open"),
                on_circuit_close: note("close"),
            });
        }
        Rc::new(Rec { m: Arc::new(m), cbs })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let ok = |v: bool| json!({"k":"ok","v":v});
        match s(&op, "e") {
            "should" => return ok(self.m.should_reconnect().await),
            "connecting" => self.m.on_connecting().await,
            "connected" => self.m.on_connected().await,
            "failed" => {
                let n = self.cbs.lock().unwrap().len();
                self.m.on_connection_failed(&Error::internal("refused")).await;
                if let Some(l) = self.cbs.lock().unwrap().get_mut(n..) {
                    l.sort(); // in whichever order the two are made
                }
            }
            "lost" => self.m.on_disconnected().await,
            "dropped" => {
                drop(ReconnectGuard::new(self.m.clone()));
                settle().await;
            }
            "reset" => self.m.reset(),
            "enable" => self.m.set_enabled(b(&op, "v")),
            "advance" => advance(i(&op, "d"), 1_000_000).await,
            "delay" => return json!({"k":"ok","us":self.m.calculate_delay().as_micros() as i64}),
            "run" => {
                let outs: Vec<bool> = op["outs"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
                let at = RefCell::new(Vec::new());
                let start = self.cbs.lock().unwrap().len();
                let r = drive(
                    1_000_000,
                    self.m.reconnect_with(|| {
                        let n = at.borrow().len();
                        at.borrow_mut().push(vnow_ms());
                        let good = outs.get(n).copied().unwrap_or(true);
                        async move {
                            tokio::task::yield_now().await;
                            if good {
                                Ok(())
                            } else {
                                Err(Error::internal(format!("attempt {}", n + 1)))
                            }
                        }
                    }),
                )
                .await;
                let k = match r {
                    Some(Ok(())) => "ok".to_string(),
                    Some(Err(e)) => match e.to_string().split_once("attempt ") {
                        Some((_, n)) => format!("err{n}"),
                        None => "refused".into(),
                    },
                    None => "hang".into(),
                };
                let mut g = self.cbs.lock().unwrap();
                for n in start + 1..g.len() {
                    if g[n - 1] == "open" && g[n] == "failed" {
                        g.swap(n - 1, n);
                    }
                }
                return json!({"k":k,"at":at.into_inner(),"now":vnow_ms()});
            }
            "look" => {
                let st = self.m.stats();
                let state = match self.m.state().await {
                    ConnectionState::Disconnected => "disconnected",
                    ConnectionState::Connecting => "connecting",
                    ConnectionState::Connected => "connected",
                    ConnectionState::WaitingRetry => "waiting",
                    ConnectionState::CircuitOpen => "open",
                };
                return json!({"k":"ok","st":state,"ret":st.current_retry_count,"fail":st.consecutive_failures,"att":st.total_attempts,"suc":st.total_successes,
                    "cbs":std::mem::take(&mut *self.cbs.lock().unwrap())});
            }
            e => panic!("op {e}"),
        }
        ok(true)
    }
}

// ---------------------------------------------------------------- recovery
fn code_of(c: &str) -> Option<ErrorCode> {
    Some(match c {
        "int" => ErrorCode::INTERNAL_ERROR,
        "inv" => ErrorCode::INVALID_REQUEST,
        "tmo" => ErrorCode::REQUEST_TIMEOUT,
        "np" => ErrorCode::METHOD_NOT_FOUND,
        "par" => ErrorCode::INVALID_PARAMS,
        _ => return None,
    })
}
fn error_of(c: &str, n: usize) -> Error {
    match code_of(c) {
        Some(c) => Error::protocol(c, format!("attempt {n}")),
        None => Error::internal(format!("attempt {n}")),
    }
}
fn strategy(v: &Value) -> RecoveryStrategy {
    let n = |k: &str| i(v, k) as u32;
    match s(v, "t") {
        "fixed" => RecoveryStrategy::RetryFixed { attempts: n("n"), delay: ms(&v["d"]) },
        "exp" => RecoveryStrategy::RetryExponential {
            attempts: n("n"),
            initial_delay: ms(&v["d"]),
            max_delay: ms(&v["max"]),
            multiplier: i(v, "num") as f64 / i(v, "den") as f64,
        },
        "fb" => RecoveryStrategy::Fallback,
        "cb" => RecoveryStrategy::CircuitBreaker { failure_threshold: n("ft"), success_threshold: n("st"), timeout: ms(&v["to"]) },
        _ => RecoveryStrategy::FailFast,
    }
}
struct Recov {
    x: RecoveryExecutor,
    own: CircuitBreaker,
    slow: bool,
}
impl Recov {
    fn new(c: &Value) -> Rc<Self> {
        virtual_clock(true);
        let mut p = RecoveryPolicy::new(strategy(&c["dflt"]));
        for (k, v) in c["pol"].as_object().unwrap() {
            if let Some(code) = code_of(k) {
                p.add_strategy(code, strategy(v));
            }
        }
        let mut x = RecoveryExecutor::new(p);
        let mut fbs: HashMap<String, String> = HashMap::new();
        for (k, v) in c["fb"].as_object().unwrap() {
            fbs.insert(k.clone(), v.as_str().unwrap().into());
        }
        for (k, v) in fbs {
            x.register_handler(
                k,
                Arc::new(FallbackHandler::new(move || {
                    let v = v.clone();
                    async move {
                        if v == "ok" {
                            Ok(json!("fallback"))
                        } else {
                            Err(error_of(&v, 0))
                        }
                    }
                })),
            );
        }
        let o = &c["own"];
        let own = CircuitBreaker::new(CircuitBreakerConfig {
            failure_threshold: i(o, "ft") as u32,
            success_threshold: i(o, "st") as u32,
            timeout: ms(&o["to"]),
        });
        Rc::new(Recov { x, own, slow: c["slow"] == true })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        match s(&op, "e") {
            "allow" => json!({"k":"ok","v":self.own.allow_request().await}),
            "success" => {
                self.own.record_success().await;
                kind("ok")
            }
            "failure" => {
                self.own.record_failure().await;
                kind("ok")
            }
            "advance" => {
                vadvance_ms(i(&op, "d"));
                kind("ok")
            }
            e => {
                let outs: Vec<String> = op["outs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
                let at = RefCell::new(Vec::new());
                let slow = self.slow;
                let run = || {
                    let n = at.borrow().len();
                    at.borrow_mut().push(vnow_ms());
                    let o = outs.get(n).cloned().unwrap_or_else(|| "ok".into());
                    async move {
                        if slow {
                            tokio::task::yield_now().await;
                        }
                        if o == "ok" {
                            Ok(json!(n + 1))
                        } else {
                            Err(error_of(&o, n + 1))
                        }
                    }
                };
                let f = async {
                    if e == "plain" {
                        with_retry(i(&op, "n") as u32, ms(&op["d"]), run).await
                    } else {
                        self.x.execute_with_recovery(s(&op, "id"), run).await
                    }
                };
                let r = if self.slow { Some(f.await) } else { drive(1_000_000, f).await };
                let at = at.into_inner();
                let (k, code) = match r {
                    None => ("hang", "".to_string()),
                    Some(Ok(v)) if v == "fallback" => ("fb", "".into()),
                    Some(Ok(v)) => (if v == json!(at.len()) { "ok" } else { "other" }, "".into()),
                    Some(Err(x)) => {
                        let code = ["int", "inv", "tmo", "np", "par"].into_iter().find(|c| code_of(c) == x.error_code()).unwrap_or("none");
                        let text = x.to_string();
                        // the error reported is the one of the last attempt (or of the fallback, or one of its own)
                        let last = text.split("attempt ").nth(1).and_then(|n| n.parse::<usize>().ok());
                        let k = if text.contains("ircuit") {
                            "open"
                        } else if last.is_some_and(|n| n != at.len() && n != 0) {
                            "stale error"
                        } else {
                            "err"
                        };
                        (k, code.into())
                    }
                };
                json!({"k":k,"at":at,"code":code,"now":vnow_ms()})
            }
        }
    }
}

pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let e = |x: &str| json!({"e":x});
    if o.comp == "reconnect" {
        match o.fam.as_str() {
            "script" => {
                for sc in std::mem::take(&mut o.scripts) {
                    paused_rt().block_on(play_seq_n(o, 2_000_000, mk_exec!(Rec::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), true));
                }
            }
            "rand" => {
                for _ in 0..o.n {
                    let den = *r.pick(&[1, 2, 4]);
                    let c = json!({"e":"init","init": *r.pick(&[1, 5, 20, 100]),"max": *r.pick(&[10, 50, 200, 1000]),"num": den * *r.pick(&[1, 2, 3]) + r.below(den as usize) as i64,"den":den,
                        "jit": *r.pick(&[0, 10, 50, 100]),"retries": *r.pick(&[-1, 0, 1, 3, 6, 20]),"reset":r.chance(2,3),"minup": *r.pick(&[0, 50, 500]),
                        "brk": *r.pick(&[-1, 0, 1, 2, 3, 5, 8]),"brkto": *r.pick(&[0, 30, 100, 1000]),"watch":true});
                    let n = 8 + r.below(40);
                    let style = r.below(3);
                    let ops: Vec<Value> = (0..n)
                        .map(|_| match r.below(if style == 0 { 17 } else { 14 }) {
                            0 | 1 => e("should"),
                            2 => e("connecting"),
                            3 => e("connected"),
                            4 | 5 => e("failed"),
                            6 => e(*r.pick(&["lost", "dropped"])),
                            7 if r.chance(1, 3) => e("reset"),
                            8 if r.chance(1, 3) => json!({"e":"enable","v":r.chance(2,3)}),
                            9 | 10 => json!({"e":"advance","d": *r.pick(&[1, 10, 29, 30, 31, 51, 99, 100, 333, 1000])}),
                            11 | 12 => e("delay"),
                            13 => e("failed"),
                            _ => json!({"e":"run","outs":(0..r.below(5)).map(|_| r.chance(1,5)).collect::<Vec<_>>()}),
                        })
                        .collect();
                    paused_rt().block_on(play_seq_n(o, 2_000_000, mk_exec!(Rec::new(&c)), c, ops, r.chance(2, 3)));
                }
            }
            "conc" => {
                let c = |brk: i64, retries: i64| {
                    json!({"e":"init","init":20,"max":70,"num":2,"den":1,"jit":0,"retries":retries,"reset":true,"minup":40,"brk":brk,"brkto":60,"watch":false})
                };
                let adv = |d: i64| json!({"e":"advance","d":d});
                let post = vec![e("look"), e("should"), adv(60), e("should"), e("look")];
                let sets = vec![
                    vec![vec![e("failed")], vec![e("should"), e("should")]],
                    vec![vec![e("failed"), e("failed")], vec![e("should")], vec![e("connected")]],
                    vec![vec![e("should")], vec![e("should")], vec![e("failed")]],
                    vec![vec![e("lost")], vec![e("failed")], vec![e("should")]],
                    vec![vec![e("connected"), e("lost")], vec![e("failed"), e("should")]],
                ];
                for (brk, retries) in [(1, 3), (2, -1)] {
                    let pre1 = vec![e("connecting")];
                    let pre2 = vec![e("failed"), e("failed"), adv(60)];
                    let pre3 = vec![e("failed"), e("failed"), adv(70), e("connected"), adv(50)];
                    for pre in [pre1, pre2, pre3] {
                        play_conc(o, &|c| mk_exec!(Rec::new(c)), &c(brk, retries), &pre, &sets, &post);
                    }
                }
            }
            f => panic!("family {f}"),
        }
        return;
    }
    let cb = |f: i64, st: i64, to: i64| json!({"t":"cb","ft":f,"st":st,"to":to});
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                paused_rt().block_on(play_seq_n(o, 2_000_000, mk_exec!(Recov::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), false));
            }
        }
        "rand" => {
            const CODES: &[&str] = &["int", "inv", "tmo", "np", "par", "none"];
            for _ in 0..o.n {
                let strat = |r: &mut Rng| match r.below(8) {
                    0 => json!({"t":"fast"}),
                    1 => json!({"t":"fb"}),
                    2 | 3 => json!({"t":"fixed","n":r.below(5),"d": *r.pick(&[0, 10, 40])}),
                    4 | 5 => {
                        let den = *r.pick(&[1, 2]);
                        json!({"t":"exp","n":r.below(6),"d": *r.pick(&[4, 16, 64]),"max": *r.pick(&[20, 48, 200, 1000]),"num": den * *r.pick(&[1, 2]) + r.below(den as usize + 1) as i64,"den":den})
                    }
                    _ => cb(r.range(0, 4), r.range(0, 3), *r.pick(&[0, 30, 100])),
                };
                let pol: serde_json::Map<String, Value> =
                    CODES[..4].iter().filter_map(|c| r.chance(3, 4).then(|| (c.to_string(), strat(&mut r)))).chain([("-".to_string(), json!({"t":"fast"}))]).collect();
                let c = json!({"e":"init","pol":pol,"dflt":strat(&mut r),"fb":{"a": *r.pick(&["ok","inv","none"]),"-":"ok"},
                    "own":{"ft":r.range(0,4),"st":r.range(0,3),"to": *r.pick(&[0, 30, 100])}});
                let n = 10 + r.below(50);
                let ops: Vec<Value> = (0..n)
                    .map(|k| match r.below(16) {
                        0..=5 => {
                            let few = r.below(4);
                            json!({"e":"exec","c":format!("x{k}"),"id": *r.pick(&["a","a","b"]),"outs":(0..few).map(|_| *r.pick(CODES)).collect::<Vec<_>>()})
                        }
                        6 => {
                            let c = *r.pick(CODES);
                            json!({"e":"exec","c":format!("x{k}"),"id":"a","outs":vec![c; 7]})
                        }
                        7 => json!({"e":"plain","n":r.below(4),"d": *r.pick(&[0, 10, 25]),"outs":(0..r.below(4)).map(|_| *r.pick(CODES)).collect::<Vec<_>>()}),
                        8 | 9 => e("allow"),
                        10 => e("success"),
                        11 | 12 => e("failure"),
                        _ => json!({"e":"advance","d": *r.pick(&[1, 10, 29, 30, 50, 99, 100])}),
                    })
                    .collect();
                paused_rt().block_on(play_seq_n(o, 2_000_000, mk_exec!(Recov::new(&c)), c, ops, false));
            }
        }
        "conc" => {
            let x = |c: &str, outs: &[&str]| json!({"e":"exec","c":c,"id":"a","outs":outs});
            let adv = |d: i64| json!({"e":"advance","d":d});
            for (ft, st) in [(2, 2), (1, 1), (2, 1)] {
                let c = json!({"e":"init","pol":{"int":cb(ft, st, 50)},"dflt":{"t":"fast"},"fb":{"-":"ok"},"own":{"ft":ft,"st":st,"to":50},"slow":true});
                let sets = vec![
                    vec![vec![e("failure"), e("allow")], vec![e("failure"), e("allow")]],
                    vec![vec![e("allow"), e("success")], vec![e("allow"), e("success")]],
                    vec![vec![e("allow"), e("failure")], vec![e("allow")], vec![e("allow")]],
                    vec![vec![e("success")], vec![e("failure")], vec![e("allow")]],
                    vec![vec![x("x1", &["int"]), x("x2", &["int"])], vec![x("y1", &["int"])]],
                    vec![vec![x("x1", &[]), x("x2", &["int"])], vec![x("y1", &["int"]), x("y2", &[])]],
                    vec![vec![x("x1", &["int"])], vec![x("y1", &[])], vec![x("z1", &["int"])]],
                ];
                let post = vec![e("allow"), x("p1", &["int"]), x("p2", &[]), adv(50), x("p3", &[]), e("allow"), e("success"), x("p4", &["int"]), x("p5", &[]), e("failure"), e("allow")];
                let opened = vec![e("failure"), e("failure"), x("q1", &["int"]), x("q2", &["int"]), adv(50)];
                let half = vec![e("failure"), e("failure"), x("q1", &["int"]), x("q2", &["int"]), adv(50), e("allow"), x("q3", &["par"])];
                for pre in [vec![], opened, half] {
                    play_conc(o, &|c| mk_exec!(Recov::new(c)), &c, &pre, &sets, &post);
                }
            }
        }
        f => panic!("family {f}"),
    }
}
