//! Session manager driver (spec/Session.tla).
use crate::core::*;
use chrono::Duration;
use pmcp::shared::session::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

thread_local! { static CB: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) }; }

#[derive(Clone)]
struct Sut {
    m: Arc<SessionManager>,
    names: Arc<Mutex<(HashMap<String, String>, HashMap<String, String>)>>, // real->name, name->real
}
impl Sut {
    fn new(cfg: &Value) -> Sut {
        let mut m = SessionManager::new(SessionConfig {
            timeout: Duration::milliseconds(i(cfg, "timeout")),
            max_sessions: i(cfg, "max") as usize,
            ..Default::default()
        });
        let cb = |k: &'static str| -> Option<SessionCallback> {
            Some(Box::new(move |s: &Session| {
                hook();
                CB.with(|c| c.borrow_mut().push((k.to_string(), s.id.clone())))
            }))
        };
        m.set_callbacks(SessionCallbacks { on_create: cb("create"), on_destroy: cb("destroy"), on_expire: cb("expire") });
        Sut { m: Arc::new(m), names: Arc::new(Mutex::new((HashMap::new(), HashMap::new()))) }
    }
    fn name(&self, real: &str) -> String {
        let mut n = self.names.lock().unwrap();
        if let Some(x) = n.0.get(real) {
            return x.clone();
        }
        let x = format!("s{}", n.0.len() + 1);
        n.0.insert(real.into(), x.clone());
        n.1.insert(x.clone(), real.into());
        x
    }
    fn real(&self, name: &str) -> String {
        self.names.lock().unwrap().1.get(name).cloned().unwrap_or_else(|| name.to_string())
    }
    fn cbs(&self) -> Vec<Value> {
        let v: Vec<_> = CB.with(|c| c.borrow_mut().drain(..).collect());
        v.into_iter().map(|(k, id)| json!([k, self.name(&id)])).collect()
    }
    fn snap(&self, s: &Session) -> Value {
        json!({"id": self.name(&s.id), "client": s.client_info.as_ref().map(|c| c.protocol_version.clone()).unwrap_or("none".into()),
            "auth": match (s.authenticated, &s.auth_info) { (true, Some(a)) => a.clone(), (false, None) => "none".into(), _ => "inconsistent".into() },
            "data": s.data.get("v").and_then(|v| v.as_str()).unwrap_or("none"),
            "created": rel_ms(s.created_at), "last": rel_ms(s.last_activity), "exp": rel_ms(s.expires_at)})
    }
    fn none() -> Value {
        json!({"id":"none","client":"none","auth":"none","data":"none","created":0,"last":0,"exp":0})
    }
    fn ok(&self, ses: Value) -> Value {
        json!({"k":"ok","ses":ses,"cb":self.cbs()})
    }
    fn res<T>(&self, r: pmcp::Result<T>, f: impl FnOnce(T) -> Value) -> Value {
        match r {
            Ok(v) => {
                let x = f(v);
                self.ok(x)
            }
            Err(_) => json!({"k":"err","ses":Self::none(),"cb":self.cbs()}),
        }
    }
    fn exec(&self, op: &Value) -> Value {
        CB.with(|c| c.borrow_mut().clear());
        match s(op, "e") {
            "create" => {
                let c = s(op, "client");
                let ci = (c != "none").then(|| ClientInfo { user_agent: None, ip_address: None, protocol_version: c.into() });
                self.res(self.m.create_session(ci), |x| self.snap(&x))
            }
            "get" => match self.m.get_session(&self.real(s(op, "id"))) {
                Some(x) => self.ok(self.snap(&x)),
                None => json!({"k":"err","ses":Self::none(),"cb":self.cbs()}),
            },
            "validate" => self.res(self.m.validate_session(&self.real(s(op, "id"))), |x| self.snap(&x)),
            "update" => {
                let v = s(op, "v").to_string();
                self.res(
                    self.m.update_session(&self.real(s(op, "id")), |x| {
                        hook();
                        x.data = json!({ "v": v });
                        hook();
                    }),
                    |_| Self::none(),
                )
            }
            "auth" => self.res(self.m.authenticate_session(&self.real(s(op, "id")), s(op, "v").into()), |_| Self::none()),
            "destroy" => self.res(self.m.destroy_session(&self.real(s(op, "id"))), |_| Self::none()),
            "cleanup" => {
                self.m.cleanup_expired();
                json!({"k":"ok","ids":self.cbs()})
            }
            "active" => json!({"k":"ok","all": self.m.active_sessions().iter().map(|x| self.snap(x)).collect::<Vec<_>>()}),
            "count" => json!({"k":"ok","n": self.m.session_count()}),
            "advance" => {
                vadvance_ms(i(op, "d"));
                kind("ok")
            }
            "process" => {
                let mut h = HashMap::new();
                let ck: Vec<String> = op["ck"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| format!("{}={}", c[0].as_str().unwrap(), self.real(c[1].as_str().unwrap())))
                    .collect();
                if !ck.is_empty() {
                    h.insert(if b(op, "up") { "Cookie" } else { "cookie" }.to_string(), ck.join(if b(op, "sp") { "; " } else { ";" }));
                }
                if s(op, "x") != "none" {
                    h.insert(if b(op, "up") { "X-Session-ID" } else { "x-session-id" }.to_string(), self.real(s(op, "x")));
                }
                let mw = SessionMiddleware::new(self.m.clone());
                let seen = Mutex::new(None);
                let r = futures::executor::block_on(mw.process(&h, |x| *seen.lock().unwrap() = x.map(|x| x.id)));
                match r {
                    Ok((Some(x), ())) if seen.lock().unwrap().as_deref() == Some(x.id.as_str()) => self.ok(self.snap(&x)),
                    Ok((None, ())) if seen.lock().unwrap().is_none() => json!({"k":"err","ses":Self::none(),"cb":self.cbs()}),
                    _ => kind("inconsistent"),
                }
            }
            e => panic!("op {e}"),
        }
    }
}
fn cfg(max: i64, timeout: i64, nids: usize) -> Value {
    json!({"e":"init","max":max,"timeout":timeout,"ids":(1..=nids).map(|n| format!("s{n}")).collect::<Vec<_>>()})
}
fn play(o: &mut Opts, c: Value, ops: Vec<Value>) {
    virtual_clock(true);
    let sut = Sut::new(&c);
    let mut tr = vec![c];
    for op in ops {
        let r = guard(|| sut.exec(&op));
        tr.push(ev(&op, r));
    }
    tr.push(json!({"e":"active","r":sut.exec(&json!({"e":"active"}))}));
    o.out.put(tr);
    virtual_clock(false);
}
fn gen_op(r: &mut Rng, ids: &[String], timeout: i64) -> Value {
    let id = r.pick(ids).clone();
    let v = format!("v{}", r.below(5));
    match r.below(24) {
        0..=4 => json!({"e":"create","client": *r.pick(&["none","2024-11-05","ünï \"q\""])}),
        5..=6 => json!({"e":"get","id":id}),
        7..=8 => json!({"e":"validate","id":id}),
        9..=10 => json!({"e":"update","id":id,"v":v}),
        11..=12 => json!({"e":"auth","id":id,"v":v}),
        13..=14 => json!({"e":"destroy","id":id}),
        15 => json!({"e":"cleanup"}),
        16 => json!({"e":"active"}),
        17 => json!({"e":"count"}),
        18..=20 => json!({"e":"advance","d": *r.pick(&[1, 1, timeout / 3, timeout / 2, timeout - 1, timeout, timeout + 1])}),
        _ => {
            let n = r.below(4);
            let ck: Vec<Value> = (0..n)
                .map(|_| json!([*r.pick(&["mcp-session-id", "mcp-session-id", "sid", "mcp-session-idx", "x"]), r.pick(ids).clone()]))
                .collect();
            let x = if r.chance(1, 2) { "none".to_string() } else { r.pick(ids).clone() };
            json!({"e":"process","ck":ck,"x":x,"up":r.chance(1,2),"sp":r.chance(1,2)})
        }
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc[0].clone(), sc[1..].to_vec());
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let timeout = *r.pick(&[10, 100, 3_600_000]);
                let max = r.range(0, 6);
                let n = 10 + r.below(50);
                let mut ids: Vec<String> = (1..=6).map(|n| format!("s{n}")).collect();
                ids.push("a=b".into());
                ids.push("".into());
                let mut r2 = r.clone();
                let ops = (0..n).map(|_| gen_op(&mut r2, &ids, timeout)).collect();
                r = r2;
                play(o, cfg(max, timeout, 60), ops);
            }
        }
        // very many sessions at once
        "crowd" => {
            for _ in 0..o.n {
                let max = *r.pick(&[60, 64, 100, 150]);
                let k = max as usize + 1 + r.below(30);
                let mut ops: Vec<Value> = vec![];
                for n in 0..k {
                    ops.push(json!({"e":"create","client":"none"}));
                    if n % 40 == 30 {
                        ops.push(json!({"e":"advance","d":1}));
                    }
                }
                for _ in 0..14 {
                    let id = format!("s{}", *r.pick(&[1, 2, 32, 59, 60, 61, 64, 65, k / 2, k]));
                    ops.push(match r.below(6) {
                        0 => json!({"e":"count"}),
                        1 => json!({"e":"create","client":"none"}),
                        2 => json!({"e":"destroy","id":id}),
                        3 => json!({"e":"update","id":id,"v":"w"}),
                        4 => json!({"e":"validate","id":id}),
                        _ => json!({"e":"get","id":id}),
                    });
                }
                play(o, cfg(max, 3_600_000, 200), ops);
            }
        }
        // every pair of operations, the second one inserted at every scheduling point of the first
        "conc" => {
            let mk = |e: &str, id: &str| match e {
                "create" => json!({"e":"create","client":"none"}),
                "update" | "auth" => json!({"e":e,"id":id,"v":"w"}),
                "cleanup" | "count" | "active" => json!({ "e": e }),
                _ => json!({"e":e,"id":id}),
            };
            let all = ["create", "get", "validate", "update", "auth", "destroy", "cleanup", "active", "count"];
            for rep in 0..o.n.max(1) {
                for a in all {
                    for bb in all {
                        for expired in [false, true] {
                            for k in 1..=8u32 {
                                virtual_clock(true);
                                let c = cfg(2, 100, 8);
                                let sut = Sut::new(&c);
                                let mut tr = vec![c];
                                let mut pre = vec![json!({"e":"create","client":"none"})];
                                if expired {
                                    pre.push(json!({"e":"advance","d":101}));
                                }
                                for op in pre {
                                    let x = sut.exec(&op);
                                    tr.push(ev(&op, x));
                                }
                                let (s1, s2) = (sut.clone(), sut.clone());
                                let id2 = if rep % 2 == 1 { "s2" } else { "s1" };
                                let hit = preempt(
                                    &mut tr,
                                    k,
                                    (mk(a, "s1"), Box::new(move |op| s1.exec(op))),
                                    (mk(bb, id2), Box::new(move |op| s2.exec(op))),
                                );
                                for op in [json!({"e":"get","id":"s1"}), json!({"e":"count"}), json!({"e":"active"})] {
                                    let x = sut.exec(&op);
                                    tr.push(ev(&op, x));
                                }
                                o.out.put(tr);
                                virtual_clock(false);
                                if !hit {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // free-running threads
        "stress" => {
            for _ in 0..o.n {
                virtual_clock(true);
                let c = cfg(3, 100, 12);
                let sut = Sut::new(&c);
                let mut tr = vec![c];
                for op in [json!({"e":"create","client":"none"}), json!({"e":"create","client":"none"})] {
                    let x = sut.exec(&op);
                    tr.push(ev(&op, x));
                }
                let log = Arc::new(Mutex::new(vec![]));
                let bar = Arc::new(std::sync::Barrier::new(3));
                let hs: Vec<_> = (0..3)
                    .map(|p| {
                        let (sut, log, bar, mut r) = (sut.clone(), log.clone(), bar.clone(), Rng::new(r.next()));
                        std::thread::spawn(move || {
                            bar.wait();
                            for _ in 0..2 {
                                let id = *r.pick(&["s1", "s2"]);
                                let op = match r.below(6) {
                                    0 => json!({"e":"get","id":id}),
                                    1 => json!({"e":"validate","id":id}),
                                    2 => json!({"e":"auth","id":id,"v":format!("p{p}")}),
                                    3 => json!({"e":"update","id":id,"v":format!("p{p}")}),
                                    4 => json!({"e":"create","client":"none"}),
                                    _ => json!({"e":"destroy","id":id}),
                                };
                                log.lock().unwrap().push(json!({"e":"call","p":p,"op":op}));
                                let x = guard(|| sut.exec(&op));
                                log.lock().unwrap().push(json!({"e":"ret","p":p,"r":x}));
                            }
                        })
                    })
                    .collect();
                hs.into_iter().for_each(|h| h.join().unwrap());
                tr.append(&mut log.lock().unwrap());
                for op in [json!({"e":"get","id":"s1"}), json!({"e":"get","id":"s2"}), json!({"e":"count"})] {
                    let x = sut.exec(&op);
                    tr.push(ev(&op, x));
                }
                o.out.put(tr);
                virtual_clock(false);
            }
        }
        f => panic!("family {f}"),
    }
}
