//! The wire format of messages (P28).
use crate::core::*;
use pmcp::shared::{StdioTransport, TransportMessage};
use pmcp::types::completable::{CompletionRequest, CompletionResponse};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};

/// JSON to its tagged form (see Codec.tla) and back.
pub fn tag(v: &Value) -> Value {
    match v {
        Value::Null => json!({"z":true}),
        Value::Bool(b) => json!({ "b": b }),
        Value::String(s) => json!({ "s": s }),
        Value::Number(n) => {
            let c = if let Some(x) = n.as_i64() {
                match x {
                    0..=0x7fff_ffff => "small",
                    0x8000_0000..=0xffff_ffff => "u32",
                    0x1_0000_0000.. => "i64+",
                    -0x8000_0000..=-1 => "neg",
                    _ => "i64-",
                }
            } else if n.is_u64() {
                "u64"
            } else {
                "f64"
            };
            json!({"n":n.to_string(),"c":c})
        }
        Value::Array(a) => json!({"a":a.iter().map(tag).collect::<Vec<_>>()}),
        Value::Object(o) => {
            let mut k: Vec<_> = o.keys().collect();
            k.sort();
            json!({"o":k.into_iter().map(|k| (k.clone(), tag(&o[k]))).collect::<Map<_, _>>()})
        }
    }
}
pub fn untag(v: &Value) -> Value {
    let o = v.as_object().unwrap();
    let (k, x) = o.iter().find(|(k, _)| *k != "c").unwrap();
    match k.as_str() {
        "z" => Value::Null,
        "b" | "s" => x.clone(),
        "n" => serde_json::from_str(x.as_str().unwrap()).unwrap(),
        "a" => Value::Array(x.as_array().unwrap().iter().map(untag).collect()),
        // TLC writes the empty function as an empty sequence
        _ => Value::Object(x.as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), untag(x))).collect()).unwrap_or_default()),
    }
}
fn method<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).map_or(json!("?"), |v| v["method"].clone())
}
/// Which message the SDK takes it for.
fn what(m: &TransportMessage) -> (&'static str, Value) {
    match m {
        TransportMessage::Request { request: Request::Client(c), .. } => ("client", method(c)),
        TransportMessage::Request { request: Request::Server(c), .. } => ("server", method(c)),
        TransportMessage::Notification(Notification::Client(c)) => ("client", method(c)),
        TransportMessage::Notification(Notification::Server(c)) => ("server", method(c)),
        TransportMessage::Notification(Notification::Progress(_)) => ("progress", json!("notifications/progress")),
        TransportMessage::Notification(Notification::Cancelled(_)) => ("cancelled", json!("notifications/cancelled")),
        TransportMessage::Response(r) => (if matches!(r.payload, ResponsePayload::Result(_)) { "result" } else { "error" }, json!("")),
    }
}
fn read(b: &[u8]) -> Option<TransportMessage> {
    StdioTransport::parse_message(b).ok()
}
fn write(m: &TransportMessage) -> Option<Vec<u8>> {
    StdioTransport::serialize_message(m).ok()
}
fn seen(b: &[u8]) -> Value {
    serde_json::from_slice(b).map_or(json!({"s":"unreadable"}), |v| tag(&v))
}
fn through<T: Serialize + DeserializeOwned>(v: Value) -> Value {
    let Ok(x) = serde_json::from_value::<T>(v.clone()) else { return kind("err") };
    // the other way of reading: from text
    if serde_json::from_str::<T>(&v.to_string()).is_err() {
        return kind("differs");
    }
    let Ok(wire) = serde_json::to_value(&x) else { return kind("unwritable") };
    let again = serde_json::from_value::<T>(wire.clone()).ok().and_then(|x| serde_json::to_value(&x).ok());
    json!({"k":"ok","side":"","name":"","wire":tag(&wire),"again":again.map_or(json!({"s":"unreadable"}), |v| tag(&v))})
}
fn typed(op: &Value) -> Option<TransportMessage> {
    let (side, note, name) = (s(op, "side"), b(op, "note"), s(op, "name"));
    let p = untag(&op["params"]);
    let unit = p == json!({}) && matches!(name, "ping" | "roots/list" | "notifications/initialized")
        || name.ends_with("/list_changed");
    let v = if unit { json!({ "method": name }) } else { json!({"method":name,"params":p}) };
    let note_ = |n| TransportMessage::Notification(n);
    let id = RequestId::String("q".into());
    Some(match (side, note) {
        ("client", false) => TransportMessage::Request { id, request: Request::Client(serde_json::from_value(v).ok()?) },
        ("server", false) => TransportMessage::Request { id, request: Request::Server(serde_json::from_value(v).ok()?) },
        ("client", true) => note_(Notification::Client(serde_json::from_value(v).ok()?)),
        ("server", true) => note_(Notification::Server(serde_json::from_value(v).ok()?)),
        ("progress", _) => note_(Notification::Progress(serde_json::from_value(p).ok()?)),
        _ => note_(Notification::Cancelled(serde_json::from_value(p).ok()?)),
    })
}
fn step(op: &Value) -> Value {
    match s(op, "e") {
        "parse" => {
            let text = untag(&op["msg"]).to_string();
            let Some(m) = read(text.as_bytes()) else { return kind("err") };
            let (side, name) = what(&m);
            let Some(wire) = write(&m) else { return kind("unwritable") };
            let again = read(&wire).and_then(|m| write(&m)).map_or(json!({"s":"unreadable"}), |w| seen(&w));
            json!({"k":"ok","side":side,"name":name,"wire":seen(&wire),"again":again})
        }
        "write" => {
            let Some(m) = typed(op) else { return kind("err") };
            let Some(wire) = write(&m) else { return kind("unwritable") };
            let Some(m2) = read(&wire) else { return json!({"k":"unreadable","wire":seen(&wire)}) };
            let (side, name) = what(&m2);
            let again = write(&m2).map_or(json!({"s":"unwritable"}), |w| seen(&w));
            json!({"k":"ok","side":side,"name":name,"wire":seen(&wire),"again":again})
        }
        _ => {
            let v = untag(&op["msg"]);
            match s(op, "ty") {
                "initialize" => through::<InitializeResult>(v),
                "tools" => through::<ListToolsResult>(v),
                "call" => through::<CallToolResult>(v),
                "prompts" => through::<ListPromptsResult>(v),
                "prompt" => through::<GetPromptResult>(v),
                "resources" => through::<ListResourcesResult>(v),
                "templates" => through::<ListResourceTemplatesResult>(v),
                "read" => through::<ReadResourceResult>(v),
                "complete" => through::<CompleteResult>(v),
                "sample" => through::<CreateMessageResult>(v),
                "completions" => through::<CompletionResponse>(v),
                _ => through::<CompletionRequest>(v),
            }
        }
    }
}
fn run_ops(o: &mut Opts, ops: Vec<Value>) {
    let mut tr = vec![json!({"e":"init"})];
    for op in ops {
        let r = guard(|| step(&op));
        tr.push(ev(&op, r));
    }
    o.out.put(tr);
}

// ---------------------------------------------------------------- random messages
fn samples() -> Vec<Value> {
    let content = json!([{"type":"text","text":"é\n\"q\""},{"type":"image","data":"AA==","mimeType":"image/png"},{"type":"resource","uri":"x:1","text":"t","mimeType":"text/plain"},{"type":"resource","uri":""}]);
    let msgs: Vec<Value> = content.as_array().unwrap().iter().enumerate().map(|(n, c)| json!({"role":(["user","assistant","system"][n % 3]),"content":c})).collect();
    let sampling = json!({"messages":msgs,"modelPreferences":{"hints":[{"name":"m"},{}],"costPriority":0.5,"speedPriority":1,"intelligencePriority":0.25},"systemPrompt":"p","includeContext":"thisServerOnly","temperature":0.75,"maxTokens":100,"stopSequences":["a","b"],"metadata":{"k":[1,null]}});
    let caps = json!({"tools":{"listChanged":true},"prompts":{"listChanged":false},"resources":{"subscribe":true,"listChanged":true},"logging":{"levels":["info","x"]},"sampling":{"models":["m"]},"roots":{"listChanged":true},"completions":{},"experimental":{"x":{"y":1},"z":null}});
    let asking = json!({"elicitationId":"e1","inputType":"multiSelect","prompt":"?","description":"d","default":[1],"validation":{"required":true,"min":1,"max":2.5,"pattern":".*","options":[{"value":{"v":1},"label":"l","description":"d","disabled":true},{"value":2,"label":"m"}],"message":"no"},"custom":{"keep":"me"}});
    let mut v = vec![];
    let mut req = |m: &str, p: Value| v.push(json!({"jsonrpc":"2.0","id":1,"method":m,"params":p}));
    req("initialize", json!({"protocolVersion":"2025-06-18","capabilities":caps,"clientInfo":{"name":"c","version":"1"}}));
    req("tools/list", json!({"cursor":"c"}));
    req("tools/call", json!({"name":"t","arguments":{"a":[1,-2,3.5,"x",null,true,{"b":{}}],"big":9007199254740993u64}}));
    req("prompts/list", json!({}));
    req("prompts/get", json!({"name":"p","arguments":{"a":"1","b":""}}));
    req("resources/list", json!({"cursor":""}));
    req("resources/templates/list", json!({"cursor":"c"}));
    req("resources/read", json!({"uri":"x:1"}));
    req("resources/subscribe", json!({"uri":"x:é"}));
    req("resources/unsubscribe", json!({"uri":"x:1"}));
    req("completion/complete", json!({"ref":{"type":"ref/prompt","name":"p"},"argument":{"name":"a","value":"v"}}));
    req("completion/complete", json!({"ref":{"type":"ref/resource","uri":"x:1"},"argument":{"name":"a","value":"v"}}));
    req("logging/setLevel", json!({"level":"warning"}));
    req("ping", json!({}));
    req("roots/list", json!({}));
    req("sampling/createMessage", sampling);
    req("elicitation/response", json!({"elicitationId":"e1","value":{"a":1},"cancelled":true,"error":"x"}));
    req("elicitation/elicitInput", asking);
    let mut note = |m: &str, p: Value| v.push(json!({"jsonrpc":"2.0","method":m,"params":p}));
    note("notifications/progress", json!({"progressToken":"t","progress":12.5,"message":"m"}));
    note("notifications/cancelled", json!({"requestId":7,"reason":"r"}));
    note("notifications/resources/updated", json!({"uri":"x:1"}));
    note("notifications/message", json!({"level":"info","logger":"l","message":"m","data":{"x":[1]}}));
    for m in ["initialized", "roots/list_changed", "tools/list_changed", "prompts/list_changed", "resources/list_changed"] {
        note(&format!("notifications/{m}"), json!({}));
    }
    v.push(json!({"jsonrpc":"2.0","id":"r1","result":{"content":content,"isError":false,"n":[1.5,-7]}}));
    v.push(json!({"jsonrpc":"2.0","id":-5,"error":{"code":-32601,"message":"no","data":{"x":null}}}));
    v
}
fn results() -> Vec<(&'static str, Value)> {
    let content = json!([{"type":"text","text":"é"},{"type":"image","data":"AA==","mimeType":"image/png"},{"type":"resource","uri":"x:1","text":"t","mimeType":"text/plain"}]);
    vec![
        ("initialize", json!({"protocolVersion":"v","capabilities":{"tools":{"listChanged":true},"prompts":{},"resources":{"subscribe":true},"logging":{"levels":["a"]},"completions":{},"sampling":{"models":[]},"experimental":{"x":1}},"serverInfo":{"name":"s","version":"1"},"instructions":"i"})),
        ("tools", json!({"tools":[{"name":"t","description":"d","inputSchema":{"type":"object"}},{"name":"u","inputSchema":{}}],"nextCursor":"n"})),
        ("call", json!({"content":content,"isError":true})),
        ("prompts", json!({"prompts":[{"name":"p","description":"d","arguments":[{"name":"a","description":"d","required":true,"completion":{"provider":{"custom":"c"},"more":1}},{"name":"b","completion":{"provider":"static"}}]}],"nextCursor":"n"})),
        ("prompt", json!({"description":"d","messages":[{"role":"user","content":{"type":"text","text":"t"}}]})),
        ("resources", json!({"resources":[{"uri":"x:1","name":"n","description":"d","mimeType":"m"}],"nextCursor":"n"})),
        ("templates", json!({"resourceTemplates":[{"uriTemplate":"x:{a}","name":"n","description":"d","mimeType":"m"}],"nextCursor":"n"})),
        ("read", json!({ "contents": content })),
        ("complete", json!({"completion":{"values":["a","b"],"total":7,"hasMore":true}})),
        ("sample", json!({"content":{"type":"text","text":"t"},"model":"m","usage":{"inputTokens":1,"outputTokens":2,"totalTokens":3},"stopReason":"end"})),
        ("completions", json!({"completions":[{"value":"v","label":"l","description":"d","icon":"i","extra":[1]}],"hasMore":true,"continuationToken":"t"})),
        ("completing", json!({"argument":"a","partial":"p","context":{"x":"y"}})),
    ]
}
const FLOATS: &[&str] = &["progress", "min", "max", "temperature", "costPriority", "speedPriority", "intelligencePriority"];
/// A value to put in the place of another; numbers only where their meaning is the type's alone.
fn scalar(r: &mut Rng, key: &str) -> Value {
    let f = FLOATS.contains(&key);
    match r.below(if key == "type" { 5 } else { 9 }) {
        0 => json!(null),
        1 => json!(r.chance(1, 2)),
        2 => json!(""),
        3 => json!(*r.pick(&["x", "ü→😀", "text", "a\tb\\", "none", "1"])),
        4 => json!("user"),
        5 => json!(r.range(-5, 5)),
        6 if !f => json!(*r.pick(&[i64::MIN, i64::MAX, 1 << 31, 1 << 32, -(1 << 31), -(1 << 31) - 1, (1 << 53) + 1])),
        7 if !f => json!(*r.pick(&[u64::MAX, 1 << 63])),
        _ => json!(*r.pick(&[0.5, -1.25, 3.0, 0.1, 1e3])),
    }
}
/// Members whose value may be anything.
const FREE: &[&str] = &["arguments", "metadata", "default", "value", "data", "result", "inputSchema", "custom", "more", "extra", "_meta"];
fn mutate(r: &mut Rng, v: &mut Value, key: &str) {
    match v {
        Value::Object(o) if !o.is_empty() && !r.chance(1, 8) => {
            let k: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&k).clone();
            match r.below(8) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let mut x = scalar(r, "");
                    if r.chance(1, 2) {
                        x = json!({"deep":[x]});
                    }
                    o.insert((*r.pick(&["_meta", "zz", "é"])).into(), x);
                }
                _ => mutate(r, o.get_mut(&k).unwrap(), &k),
            }
        }
        Value::Array(a) if !a.is_empty() && !r.chance(1, 8) => {
            let n = r.below(a.len());
            match r.below(5) {
                0 => {
                    a.remove(n);
                }
                1 => a.push(a[n].clone()),
                _ => mutate(r, &mut a[n], key),
            }
        }
        v => {
            *v = if FREE.contains(&key) && r.chance(1, 3) { json!([{"q":scalar(r, "")},[]]) } else { scalar(r, key) };
        }
    }
}

pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                run_ops(o, sc[1..].to_vec());
            }
        }
        "rand" => {
            let (ms, rs) = (samples(), results());
            for _ in 0..o.n {
                let ops = (0..20)
                    .map(|_| {
                        let muts = r.below(4);
                        if r.chance(2, 3) {
                            let mut v = r.pick(&ms).clone();
                            (0..muts).for_each(|_| mutate(&mut r, &mut v, ""));
                            // a member of another kind of message, as it is there or spoilt
                            if v.is_object() && r.chance(1, 3) {
                                let k = *r.pick(&["id", "id", "method", "params", "result", "error"]);
                                let other: Vec<Value> = ms.iter().filter_map(|m| m.get(k).cloned()).collect();
                                v[k] = if r.chance(1, 2) { r.pick(&other).clone() } else { scalar(&mut r, k) };
                                // an answer that is both a result and an error has no meaning to hold anyone to
                                if k == "result" || k == "error" {
                                    v.as_object_mut().unwrap().remove(if k == "error" { "result" } else { "error" });
                                }
                            }
                            // other versions of JSON-RPC are not covered
                            if v["jsonrpc"].is_string() {
                                v["jsonrpc"] = json!("2.0");
                            }
                            json!({"e":"parse","msg":tag(&v)})
                        } else {
                            let (t, v) = r.pick(&rs);
                            let mut v = v.clone();
                            (0..muts).for_each(|_| mutate(&mut r, &mut v, ""));
                            json!({"e":"result","ty":t,"msg":tag(&v)})
                        }
                    })
                    .collect();
                run_ops(o, ops);
            }
        }
        f => panic!("family {f}"),
    }
}
