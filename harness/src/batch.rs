//! Batch processing with handlers that the driver lets go one by one.
use crate::core::*;
use crate::server::show_id;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::ToolHandler;
use pmcp::shared::batch::*;
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::*;
use pmcp::utils::parallel_batch::*;
use pmcp::{Error, Result, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::sync::oneshot;

#[derive(Default)]
struct Shared {
    started: Vec<Value>,
    gates: HashMap<i64, oneshot::Sender<(String, String)>>,
    done: Option<(String, Vec<Value>)>,
}
type Sh = Arc<Mutex<Shared>>;
async fn handle(sh: &Sh, k: i64) -> (String, String) {
    let (tx, rx) = oneshot::channel();
    {
        let mut g = sh.lock().unwrap();
        g.started.push(json!(k));
        g.gates.insert(k, tx);
    }
    rx.await.unwrap_or(("err".into(), "dropped".into()))
}
struct T(Sh);
#[async_trait]
impl ToolHandler for T {
    async fn handle(&self, args: Value, _x: RequestHandlerExtra) -> Result<Value> {
        match handle(&self.0, i(&args, "k")).await {
            (o, body) if o == "res" => Ok(json!(body)),
            (_, body) => Err(Error::internal(body)),
        }
    }
}
async fn respond(sh: Sh, rq: JSONRPCRequest) -> JSONRPCResponse {
    let k = rq.params.as_ref().map(|p| i(p, "k")).unwrap();
    let (o, body) = handle(&sh, k).await;
    JSONRPCResponse {
        jsonrpc: "2.0".into(),
        id: rq.id,
        payload: if o == "res" {
            ResponsePayload::Result(json!(body))
        } else {
            ResponsePayload::Error(JSONRPCError { code: -7, message: body, data: None })
        },
    }
}
fn show(r: &JSONRPCResponse) -> Value {
    let id = show_id(&serde_json::to_value(&r.id).unwrap());
    match &r.payload {
        ResponsePayload::Result(Value::String(b)) => json!([id, "res", b]),
        ResponsePayload::Result(v) if v.get("content").is_some() => {
            json!([id, "res", serde_json::from_str::<String>(s(&v["content"][0], "text")).unwrap()])
        }
        ResponsePayload::Result(v) => json!([id, "res", v.to_string()]),
        ResponsePayload::Error(e) if e.code == -7 => json!([id, "err", e.message]),
        ResponsePayload::Error(e) if e.message.contains("imeout") => json!([id, "late", ""]),
        ResponsePayload::Error(e) => json!([id, "err", e.code.to_string()]),
    }
}
fn pick_id(x: &str) -> RequestId {
    match x.split_once(':').unwrap() {
        ("n", v) => RequestId::from(v.parse::<i64>().unwrap()),
        (_, v) => RequestId::from(v),
    }
}
async fn play(o: &mut Opts, c: Value, ops: &mut dyn FnMut(&[i64], bool) -> Option<Value>) {
    virtual_clock(true);
    let api = s(&c, "api").to_string();
    let sh: Sh = Default::default();
    let unit = if api == "batch" || api == "server" { 10_000 } else { 10 };
    let tmo = i(&c, "timeout");
    let pc = ParallelBatchConfig {
        max_concurrency: i(&c, "max") as usize,
        fail_fast: false,
        request_timeout_ms: (tmo > 0).then_some((tmo * unit) as u64),
    };
    let proc = Arc::new(BatchProcessor::new(pc.clone()));
    let server = Arc::new(Server::builder().name("s").version("1").tool("t", T(sh.clone())).build().unwrap());
    let mut running: Vec<i64> = vec![];
    let mut busy = false;
    let mut tr = vec![c];
    while let Some(op) = ops(&running, busy) {
        match s(&op, "e") {
            "begin" => {
                busy = true;
                let rqs: Vec<JSONRPCRequest> = op["reqs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(n, q)| {
                        let id = pick_id(s(q, "id"));
                        let k = n as i64 + 1;
                        if b(q, "bad") {
                            JSONRPCRequest::new(id, "no/such", Some(json!({})))
                        } else if api == "server" {
                            JSONRPCRequest::new(id, "tools/call", Some(json!({"name":"t","arguments":{"k":k}})))
                        } else {
                            JSONRPCRequest::new(id, "x", Some(json!({"k":k})))
                        }
                    })
                    .collect();
                let (sh2, api, proc, server, pc) = (sh.clone(), api.clone(), proc.clone(), server.clone(), pc.clone());
                tokio::spawn(async move {
                    let s3 = sh2.clone();
                    let h = move |rq| respond(s3.clone(), rq);
                    let wrapped = |r: BatchResponse| match r {
                        BatchResponse::Single(r) => ("single", vec![r]),
                        BatchResponse::Batch(r) => ("list", r),
                    };
                    let single = rqs.len() == 1;
                    let breq = if single { BatchRequest::Single(rqs[0].clone()) } else { BatchRequest::Batch(rqs.clone()) };
                    let (shape, r) = match api.as_str() {
                        "processor" => ("list", proc.process(rqs, h).await.unwrap()),
                        "parallel" => ("list", process_batch_parallel(rqs, h, pc).await.unwrap()),
                        "stateful" => {
                            let st = Arc::new(tokio::sync::RwLock::new(0u32));
                            let h = move |rq, st: Arc<tokio::sync::RwLock<u32>>| {
                                let f = h(rq);
                                async move {
                                    *st.write().await += 1;
                                    f.await
                                }
                            };
                            ("list", process_batch_parallel_stateful(rqs, st, h, pc).await.unwrap())
                        }
                        "batch" => wrapped(process_batch_request(breq, h).await.unwrap()),
                        "server" => {
                            // through the wire form of a batch
                            let q = BatchRequest::from_value(breq.to_value().unwrap()).unwrap();
                            wrapped(server.handle_batch_request(q).await.unwrap())
                        }
                        a => panic!("api {a}"),
                    };
                    sh2.lock().unwrap().done = Some((shape.into(), r.iter().map(show).collect()));
                });
            }
            "finish" => {
                if let Some(tx) = sh.lock().unwrap().gates.remove(&i(&op, "n")) {
                    let _ = tx.send((s(&op, "o").into(), s(&op, "body").into()));
                }
                running.retain(|k| *k != i(&op, "n"));
            }
            "tick" => advance(unit, unit).await,
            "metrics" => {}
            e => panic!("op {e}"),
        }
        if op["e"] == "metrics" {
            let m = proc.metrics().await;
            tr.push(ev(&op, json!({"tot":{"n":m.total_requests,"ok":m.successful_responses,"err":m.error_responses,"late":m.timeout_responses}})));
            continue;
        }
        settle_n(60).await;
        let mut g = sh.lock().unwrap();
        let st = std::mem::take(&mut g.started);
        running.extend(st.iter().map(|v| v.as_i64().unwrap()));
        let d = g.done.take();
        // handlers that were given up no longer hold their gate open
        g.gates.retain(|_, tx| !tx.is_closed());
        let mut live: Vec<i64> = g.gates.keys().copied().collect();
        live.sort();
        if d.is_some() {
            busy = false;
            running.clear();
            g.gates.clear();
        }
        running.retain(|k| g.gates.contains_key(k));
        let (shape, resp) = d.clone().unwrap_or(("none".into(), vec![]));
        tr.push(ev(&op, json!({"started":st,"live":live,"done":d.is_some(),"shape":shape,"resp":resp})));
    }
    o.out.put(tr);
    virtual_clock(false);
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                paused_rt().block_on(async {
                    let mut it = sc[1..].iter();
                    play(o, sc[0].clone(), &mut |_, _| it.next().cloned()).await;
                });
            }
        }
        "rand" | "crowd" => {
            let crowd = o.fam == "crowd";
            for _ in 0..o.n {
                let api = *r.pick(&["processor", "processor", "parallel", "stateful", "batch", "server"]);
                let fixed = api == "batch" || api == "server";
                let max = if fixed { 10 } else if crowd { *r.pick(&[10, 40, 64, 100]) } else { 1 + r.below(6) };
                let tmo = if fixed { 3 } else { *r.pick(&[0, 0, 1, 2, 5]) };
                let c = json!({"e":"init","api":api,"max":max,"timeout":tmo,"wrap":fixed});
                let mut left = if crowd { 2 } else { 2 + r.below(3) };
                let mut single = false;
                let mut budget = if crowd { 600 } else { 300 };
                paused_rt().block_on(play(o, c, &mut |running, busy| {
                    budget -= 1;
                    if budget == 0 {
                        return None;
                    }
                    if !busy {
                        if left == 0 {
                            return None;
                        }
                        left -= 1;
                        if api == "processor" && r.chance(1, 3) {
                            return Some(json!({"e":"metrics"}));
                        }
                        let n = if crowd { *r.pick(&[50, 64, 65, 100, 120]) } else { *r.pick(&[0, 1, 1, 2, 3, 5, 8, 12, 25]) };
                        single = n == 1;
                        let reqs: Vec<Value> = (0..n)
                            .map(|k| {
                                let id = match r.below(4) {
                                    0 => format!("s:{}", r.below(3)),
                                    1 => format!("n:{}", r.below(3)),
                                    _ => format!("n:{}", 100 + k),
                                };
                                json!({"id":id,"bad":api == "server" && r.chance(1,6)})
                            })
                            .collect();
                        return Some(json!({"e":"begin","reqs":reqs}));
                    }
                    if running.is_empty() || (r.chance(1, if crowd { 60 } else { 5 }) && !(fixed && single)) {
                        return Some(json!({"e":"tick"}));
                    }
                    let k = *r.pick(running);
                    let ok = r.chance(3, 4);
                    let body = if ok { format!("b{k}") } else if api == "server" { "-32603".into() } else { format!("e{k}") };
                    Some(json!({"e":"finish","n":k,"o": if ok {"res"} else {"err"},"body":body}))
                }));
            }
        }
        f => panic!("family {f}"),
    }
}
