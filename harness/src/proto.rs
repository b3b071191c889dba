//! Pending requests: shared::protocol::Protocol.
use crate::core::*;
use crate::mk_exec;
use pmcp::shared::protocol::{Protocol, ProtocolOptions, TransportId};
use pmcp::types::{JSONRPCResponse, RequestId};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use tokio::sync::oneshot;

struct Sut {
    conns: RefCell<HashMap<String, Protocol>>,
    rxs: RefCell<Vec<Option<oneshot::Receiver<JSONRPCResponse>>>>,
}
fn rid(x: &str) -> RequestId {
    match x.split_at(2) {
        ("n:", n) => RequestId::from(n.parse::<i64>().unwrap()),
        (_, t) => RequestId::from(t),
    }
}
fn resp(op: &Value) -> JSONRPCResponse {
    if s(op, "v").starts_with('!') {
        return JSONRPCResponse::error(rid(s(op, "id")), pmcp::types::JSONRPCError { code: -1, message: s(op, "v").into(), data: None });
    }
    JSONRPCResponse::success(rid(s(op, "id")), json!(s(op, "v")))
}
impl Sut {
    fn new(c: &Value) -> Rc<Self> {
        let conns = c["conns"].as_object().unwrap().iter().map(|(k, t)| {
            let t = TransportId::from_string(t.as_str().unwrap().into());
            (k.clone(), Protocol::with_transport_id(ProtocolOptions::default(), t))
        });
        Rc::new(Sut { conns: RefCell::new(conns.collect()), rxs: Default::default() })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        if op["e"] == "look" {
            settle().await;
            let mut outs = vec![];
            for (n, r) in self.rxs.borrow_mut().iter_mut().enumerate() {
                let v = match r.as_mut().map(|r| r.try_recv()) {
                    Some(Ok(x)) => match &x.payload {
                        pmcp::types::jsonrpc::ResponsePayload::Result(v) => json!({"n":n+1,"v":v}),
                        pmcp::types::jsonrpc::ResponsePayload::Error(e) => json!({"n":n+1,"v":e.message}),
                    },
                    Some(Err(oneshot::error::TryRecvError::Closed)) => json!({"n":n+1,"v":"closed"}),
                    _ => continue,
                };
                *r = None;
                outs.push(v);
            }
            return json!({"k":"ok","outs":outs});
        }
        if op["e"] == "leave" {
            if let Some(x) = self.rxs.borrow_mut().get_mut(i(&op, "n") as usize - 1) {
                *x = None;
            }
            return kind("ok");
        }
        let mut cs = self.conns.borrow_mut();
        let p = cs.get_mut(s(&op, "c")).unwrap();
        let id = rid(s(&op, "id"));
        match s(&op, "e") {
            "reg" => {
                let rx = p.register_request(id);
                let mut v = self.rxs.borrow_mut();
                v.push(Some(rx));
                json!({"k":"ok","n":v.len()})
            }
            "comp" => kind(if p.complete_request(&id, resp(&op)).is_ok() { "ok" } else { "err" }),
            "compt" => match p.complete_request_for_transport(&id, resp(&op), &TransportId::from_string(s(&op, "t").into())) {
                Ok(d) => json!({"k":"ok","done":d}),
                Err(_) => kind("err"),
            },
            "cancel" => {
                p.cancel_request(&id);
                kind("ok")
            }
            e => panic!("op {e}"),
        }
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let rt = paused_rt();
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                rt.block_on(play_seq(o, mk_exec!(Sut::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), true));
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let mut conns = serde_json::Map::new();
                let nc = 1 + r.below(3);
                for k in 0..nc {
                    conns.insert(format!("c{k}"), json!(*r.pick(&["t0", "t1", "t2", "", "T0"])));
                }
                let c = json!({"e":"init","conns":conns});
                let ids = ["n:1", "n:2", "n:-1", "n:0", "s:1", "s:a", "s:", "s:é"];
                let ni = 1 + r.below(ids.len());
                let len = 10 + r.below(40);
                let mut regs = 0;
                let mut ops: Vec<Value> = (0..len)
                    .map(|k| {
                        let cc = format!("c{}", r.below(nc));
                        let id = *r.pick(&ids[..ni]);
                        let v = format!("{}{k}", *r.pick(&["v", "v", "!e"]));
                        let t = *r.pick(&["t0", "t1", "t2", "", "T0"]);
                        match r.below(12) {
                            0..=3 => {
                                regs += 1;
                                json!({"e":"reg","c":cc,"id":id})
                            }
                            4 | 5 => json!({"e":"comp","c":cc,"id":id,"v":v}),
                            6..=8 => json!({"e":"compt","c":cc,"id":id,"v":v,"t": if r.chance(1,2) { conns[&cc].as_str().unwrap() } else { t }}),
                            9 => json!({"e":"cancel","c":cc,"id":id}),
                            10 if regs > 0 => json!({"e":"leave","n":1+r.below(regs)}),
                            _ => json!({"e":"look"}),
                        }
                    })
                    .collect();
                ops.push(json!({"e":"look"}));
                let looks = r.chance(1, 3);
                rt.block_on(play_seq(o, mk_exec!(Sut::new(&c)), c, ops, looks));
            }
        }
        // very many requests at once
        "crowd" => {
            for _ in 0..o.n {
                let c = json!({"e":"init","conns":{"c0":"t0","c1":"t1"}});
                let k = 70 + r.below(80);
                let mut ops: Vec<Value> = (0..k).map(|n| json!({"e":"reg","c":format!("c{}", n % 2),"id":format!("{}:{n}", if n % 5 == 0 { "s" } else { "n" })})).collect();
                for j in 0..14 {
                    let n = *r.pick(&[0, 1, 31, 63, 64, 65, k / 2, k - 2, k - 1]);
                    let (cc, id) = (format!("c{}", n % 2), format!("{}:{n}", if n % 5 == 0 { "s" } else { "n" }));
                    ops.push(match r.below(4) {
                        0 => json!({"e":"comp","c":cc,"id":id,"v":format!("v{j}")}),
                        1 => json!({"e":"cancel","c":cc,"id":id}),
                        2 => json!({"e":"leave","n":n+1}),
                        _ => json!({"e":"compt","c":cc,"id":id,"v":format!("v{j}"),"t":format!("t{}", n % 2)}),
                    });
                    ops.push(json!({"e":"look"}));
                }
                rt.block_on(play_seq(o, mk_exec!(Sut::new(&c)), c, ops, false));
            }
        }
        f => panic!("family {f}"),
    }
}
