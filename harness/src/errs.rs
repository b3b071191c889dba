//! Errors and their way to the other side (P36).
use crate::core::*;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::shared::batch::{BatchRequest, BatchResponse};
use pmcp::types::*;
use pmcp::{Error, ErrorCode, Result, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Returns the error it was given, once.
#[derive(Clone)]
struct Fails(Arc<Mutex<Option<Error>>>);
impl Fails {
    fn it<T>(&self) -> Result<T> {
        Err(self.0.lock().unwrap().take().expect("called once"))
    }
}
#[async_trait]
impl ToolHandler for Fails {
    async fn handle(&self, _: Value, _: RequestHandlerExtra) -> Result<Value> {
        self.it()
    }
}
#[async_trait]
impl PromptHandler for Fails {
    async fn handle(&self, _: HashMap<String, String>, _: RequestHandlerExtra) -> Result<GetPromptResult> {
        self.it()
    }
}
#[async_trait]
impl ResourceHandler for Fails {
    async fn read(&self, _: &str, _: RequestHandlerExtra) -> Result<ReadResourceResult> {
        self.it()
    }
    async fn list(&self, _: Option<String>, _: RequestHandlerExtra) -> Result<ListResourcesResult> {
        self.it()
    }
}
#[async_trait]
impl SamplingHandler for Fails {
    async fn create_message(&self, _: CreateMessageParams, _: RequestHandlerExtra) -> Result<CreateMessageResult> {
        self.it()
    }
}
fn make(op: &Value) -> Error {
    let (t, c) = (s(op, "text").to_string(), ErrorCode::other(i(op, "code") as i32));
    match s(op, "kind") {
        "protocol" => Error::protocol(c, t),
        "data" => Error::protocol_with_data(c, t, serde_json::from_str(s(op, "data")).unwrap()),
        "msg" => Error::protocol_msg(t),
        "parse" => Error::parse(t),
        "invalid_request" => Error::invalid_request(t),
        "method_not_found" => Error::method_not_found(t),
        "invalid_params" => Error::invalid_params(t),
        "validation" => Error::validation(t),
        "internal" => Error::internal(t),
        "not_found" => Error::not_found(t),
        "authentication" => Error::authentication(t),
        "capability" => Error::capability(t),
        "resource_not_found" => Error::resource_not_found(t),
        "cancelled" => Error::cancelled(t),
        "state" => Error::InvalidState(t),
        "other" => Error::Other(anyhow::Error::msg(t)),
        "io" => Error::Transport(std::io::Error::other(t).into()),
        k => panic!("kind {k}"),
    }
}
/// The same error once more (errors cannot be copied).
fn again(e: &Error) -> Option<Error> {
    match e {
        Error::Protocol { code, message, data } => Some(Error::Protocol { code: *code, message: message.clone(), data: data.clone() }),
        _ => None,
    }
}
fn show(e: &Error, given: i32, mk: &dyn Fn() -> Error) -> Value {
    let mut asked: Vec<i32> = vec![-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004, 0, 1, given];
    asked.extend(e.error_code().map(|c| c.as_i32()));
    asked.sort();
    asked.dedup();
    let is: Vec<i32> = asked.into_iter().filter(|c| e.is_error_code(ErrorCode::other(*c))).collect();
    let w = JSONRPCError::from(again(e).unwrap_or_else(mk));
    json!({"k":"err","shown":{"code":e.error_code().map(|c| c.as_i32()).into_iter().collect::<Vec<_>>(),"is":is},"wire":wire(&w)})
}
fn wire(w: &JSONRPCError) -> Value {
    json!({"code":w.code,"msg":w.message,"data":w.data.as_ref().map_or(String::new(), |d| d.to_string())})
}
fn told(e: Error, way: &str) -> JSONRPCError {
    if way == "plain" {
        let w = JSONRPCError::from(e);
        return serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap();
    }
    let f = Fails(Arc::new(Mutex::new(Some(e))));
    let server = Server::builder().name("s").version("1").tool("t", f.clone()).prompt("t", f.clone()).resources(f.clone()).sampling(f.clone()).build().unwrap();
    let (method, params) = match way {
        "tool" => ("tools/call", json!({"name":"t","arguments":{}})),
        "prompt" => ("prompts/get", json!({"name":"t","arguments":{}})),
        "resource" => ("resources/read", json!({"uri":"x://y"})),
        "resources" => ("resources/list", json!({})),
        "sampling" => ("sampling/createMessage", json!({"messages":[]})),
        w => panic!("way {w}"),
    };
    let rq = JSONRPCRequest { jsonrpc: "2.0".into(), method: method.into(), params: Some(params), id: RequestId::from(7i64) };
    let a = plain_rt().block_on(Arc::new(server).handle_batch_request(BatchRequest::Single(rq))).unwrap();
    assert!(f.0.lock().unwrap().is_none(), "the handler was not called");
    let BatchResponse::Single(a) = a else { panic!("several answers") };
    let v: Value = serde_json::to_value(&a).unwrap();
    assert!(v["id"] == 7 && v.get("result").is_none());
    serde_json::from_value(v["error"].clone()).unwrap()
}
pub fn play(o: &mut Opts, c: Value, ops: &[Value]) {
    let mut e = Error::Cancelled;
    let mut mk: Value = Value::Null;
    let mut tr = vec![c];
    for op in ops {
        let r = guard(|| match s(op, "e") {
            "make" => {
                e = make(op);
                mk = op.clone();
                show(&e, i(op, "code") as i32, &|| make(op))
            }
            "send" => {
                let it = std::mem::replace(&mut e, Error::Cancelled);
                let w = told(it, s(op, "way"));
                let shown = w.clone();
                e = Error::from_jsonrpc_error(w);
                let mut r = show(&e, shown.code, &|| unreachable!());
                // told as it was, and read with its code as known here
                if r["wire"]["msg"] != shown.message.as_str() || r["wire"]["data"] != wire(&shown)["data"] {
                    r = json!({"k":"differ"});
                }
                r
            }
            "code" => {
                let c = ErrorCode::from_i32(i(op, "code") as i32);
                let raw = ErrorCode::other(i(op, "code") as i32);
                if c.to_string() != c.as_i32().to_string() || raw.as_i32() as i64 != i(op, "code") {
                    return kind("differ");
                }
                json!({"k":"code","code":c.as_i32()})
            }
            x => panic!("op {x}"),
        });
        tr.push(ev(op, r));
    }
    o.out.put(tr);
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc[0].clone(), &sc[1..]);
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let mut ops = vec![];
                for _ in 0..4 {
                    let code = match r.below(4) {
                        0 => r.range(-32800, -31900),
                        1 => r.range(-50, 50),
                        2 => *r.pick(&[-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004]),
                        _ => r.range(-2147483647, 2147483647),
                    };
                    ops.push(json!({"e":"code","code":code}));
                    let kind = *r.pick(&["protocol", "data", "data", "msg", "parse", "invalid_request", "method_not_found", "invalid_params", "validation", "internal", "not_found", "authentication", "capability", "resource_not_found", "cancelled", "state", "other", "io"]);
                    let text: String = (0..r.below(5)).map(|_| *r.pick(&["a", "no ", "\"q\"", "\\", "{}", ": ", "-32601", "\t"])).collect();
                    let data = *r.pick(&["0", "\"x\"", "[1,{\"a\":false}]", "{}", "[]", "false", "1.5", "\"\"", "{\"b\":1,\"a\":[]}"]);
                    ops.push(json!({"e":"make","kind":kind,"code":code,"text":text,"data":if kind == "data" { data } else { "" }}));
                    for _ in 0..r.below(4) {
                        ops.push(json!({"e":"send","way":r.pick(&["plain", "tool", "prompt", "resource", "resources", "sampling"])}));
                    }
                }
                play(o, json!({"e":"init"}), &ops);
            }
        }
        f => panic!("family {f}"),
    }
}
