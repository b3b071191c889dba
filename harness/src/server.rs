//! Server::run over an in-memory transport that speaks the wire format.
use crate::core::*;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::*;
use pmcp::{Error, ErrorCode, Result, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, Notify};

pub type Obs = Arc<Mutex<Vec<Value>>>;

#[derive(Debug)]
struct Wire {
    rx: mpsc::UnboundedReceiver<Vec<u8>>,
    obs: Obs,
}
#[async_trait]
impl Transport for Wire {
    async fn send(&mut self, m: TransportMessage) -> Result<()> {
        let b = StdioTransport::serialize_message(&m)?;
        let v: Value = serde_json::from_slice(&b).unwrap();
        self.obs.lock().unwrap().push(show_frame(&v));
        Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage> {
        match self.rx.recv().await {
            Some(b) => StdioTransport::parse_message(&b),
            None => Err(Error::internal("closed")),
        }
    }
    async fn close(&mut self) -> Result<()> {
        Ok(())
    }
}
pub fn show_id(v: &Value) -> String {
    match v {
        Value::String(x) => format!("s:{x}"),
        Value::Number(n) => format!("n:{n}"),
        x => format!("?:{x}"),
    }
}
fn names(l: &Value) -> String {
    let mut n: Vec<String> = l.as_array().unwrap().iter().map(|t| s(t, "name").to_string()).collect();
    n.sort();
    n.iter().map(|x| format!("{x},")).collect()
}
/// A written frame as the specification names it.
pub fn show_frame(v: &Value) -> Value {
    if v["jsonrpc"] != "2.0" {
        return json!(["out", "not-jsonrpc", "", ""]);
    }
    if v.get("method").is_some() {
        return json!(["out", "method", s(v, "method"), ""]);
    }
    let id = show_id(&v["id"]);
    if let Some(e) = v.get("error") {
        let mut text = e["code"].to_string();
        if e["message"].as_str().is_some_and(|m| m.contains("refused")) || e.get("data").is_some() {
            text = format!("{text}:{}:{}", e["message"].as_str().unwrap_or("?"), e.get("data").map_or(String::new(), |d| d.to_string()));
        }
        return json!(["out", id, if v.get("result").is_some() { "both" } else { "err" }, text]);
    }
    json!(["out", id, "res", show_result(&v["result"])])
}
pub fn show_result(r: &Value) -> String {
    if let Some(p) = r.get("protocolVersion") {
        let caps: String = r["capabilities"].as_object().unwrap().keys().map(|k| format!("{k},")).collect();
        return format!("{}|{}|{}", p.as_str().unwrap(), caps, r["serverInfo"]["name"].as_str().unwrap());
    }
    if let Some(t) = r.get("tools") {
        return names(t);
    }
    if let Some(t) = r.get("prompts") {
        return names(t);
    }
    if let Some(t) = r.get("resourceTemplates") {
        return names(t);
    }
    if let Some(t) = r.get("resources") {
        return t.as_array().unwrap().iter().map(|x| s(x, "uri").to_string()).collect::<Vec<_>>().join(",");
    }
    if let Some(t) = r.get("contents") {
        return t.as_array().unwrap().iter().map(|x| s(x, "text").to_string()).collect::<Vec<_>>().join(",");
    }
    if r.get("model").is_some() {
        return r["content"]["text"].as_str().unwrap().to_string();
    }
    if r.get("messages").is_some() {
        return r["description"].as_str().unwrap().to_string();
    }
    if let Some(c) = r.get("content") {
        let c = c.as_array().unwrap();
        return if c.len() == 1 && r.get("isError").map_or(true, |e| e == false) {
            s(&c[0], "text").to_string()
        } else {
            format!("odd:{r}")
        };
    }
    r.to_string()
}

/// A handler with a fixed behaviour: "ok", "fail" or "slow" (waits to be let go).
#[derive(Clone)]
pub struct Hnd {
    pub n: String,
    pub b: String,
    pub obs: Obs,
    pub gate: Arc<Notify>,
}
impl Hnd {
    async fn act(&self, k: &str, n: &str, a: &str, extra: &RequestHandlerExtra) -> Result<()> {
        self.obs.lock().unwrap().push(json!(["hand", k, n, a, extra.request_id]));
        match self.b.as_str() {
            "fail" => return Err(Error::internal("it failed")),
            "refuse" => return Err(Error::protocol_with_data(ErrorCode::INVALID_PARAMS, "refused é", json!({"why":[1, null]}))),
            "limit" => return Err(Error::protocol(ErrorCode::other(-32050), "refused: too many")),
            "slow" => self.gate.notified().await,
            _ => {}
        }
        Ok(())
    }
}
fn flat(m: &HashMap<String, String>) -> String {
    let mut k: Vec<_> = m.iter().map(|(k, v)| format!("{k}={v};")).collect();
    k.sort();
    k.concat()
}
#[async_trait]
impl ToolHandler for Hnd {
    async fn handle(&self, args: Value, extra: RequestHandlerExtra) -> Result<Value> {
        self.act("tool", &self.n, &args.to_string(), &extra).await?;
        Ok(json!([self.n, args]))
    }
}
#[async_trait]
impl PromptHandler for Hnd {
    async fn handle(&self, args: HashMap<String, String>, extra: RequestHandlerExtra) -> Result<GetPromptResult> {
        self.act("prompt", &self.n, &flat(&args), &extra).await?;
        Ok(GetPromptResult { description: Some(format!("{}:{}", self.n, flat(&args))), messages: vec![] })
    }
}
#[async_trait]
impl ResourceHandler for Hnd {
    async fn read(&self, uri: &str, extra: RequestHandlerExtra) -> Result<ReadResourceResult> {
        self.act("read", uri, "", &extra).await?;
        Ok(ReadResourceResult { contents: vec![Content::Text { text: format!("text:{uri}") }] })
    }
    async fn list(&self, cursor: Option<String>, extra: RequestHandlerExtra) -> Result<ListResourcesResult> {
        let c = cursor.unwrap_or_default();
        self.act("list", "", &c, &extra).await?;
        Ok(ListResourcesResult {
            resources: vec![ResourceInfo { uri: format!("at:{c}"), name: "n".into(), description: None, mime_type: None }],
            next_cursor: None,
        })
    }
}
#[async_trait]
impl SamplingHandler for Hnd {
    async fn create_message(&self, p: CreateMessageParams, extra: RequestHandlerExtra) -> Result<CreateMessageResult> {
        let t = match p.messages.first().map(|m| &m.content) {
            Some(Content::Text { text }) => text.clone(),
            _ => "".into(),
        };
        self.act("sample", "", &t, &extra).await?;
        Ok(CreateMessageResult { content: Content::Text { text: format!("said:{t}") }, model: "m".into(), usage: None, stop_reason: None })
    }
}
fn raw_id(id: &str) -> Value {
    match id.split_once(':').unwrap() {
        ("n", x) => json!(x.parse::<i64>().unwrap()),
        (_, x) => json!(x),
    }
}
/// The wire form of a message of the specification.
pub fn wire(m: &Value) -> Value {
    let rq = |method: &str, params: Value| {
        let mut v = json!({"jsonrpc":"2.0","id":raw_id(s(m, "id")),"method":method});
        if !params.is_null() {
            v["params"] = params;
        }
        v
    };
    match s(m, "t") {
        "init" => rq("initialize", json!({"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"c","version":"1"}})),
        "ping" => rq("ping", Value::Null),
        "tools" => rq("tools/list", json!({})),
        "prompts" => rq("prompts/list", json!({})),
        "templates" => rq("resources/templates/list", json!({})),
        "call" => rq("tools/call", json!({"name":s(m,"name"),"arguments":serde_json::from_str::<Value>(s(m,"args")).unwrap()})),
        "prompt" => {
            let a: serde_json::Map<String, Value> = s(m, "args")
                .split(';')
                .filter(|x| !x.is_empty())
                .map(|x| x.split_once('=').unwrap())
                .map(|(k, v)| (k.to_string(), json!(v)))
                .collect();
            rq("prompts/get", json!({"name":s(m,"name"),"arguments":a}))
        }
        "list" => rq("resources/list", if s(m, "cursor").is_empty() { json!({}) } else { json!({"cursor":s(m,"cursor")}) }),
        "read" => rq("resources/read", json!({"uri":s(m,"uri")})),
        "subscribe" => rq("resources/subscribe", json!({"uri":"u"})),
        "unsubscribe" => rq("resources/unsubscribe", json!({"uri":"u"})),
        "complete" => rq("completion/complete", json!({"ref":{"type":"ref/prompt","name":"p"},"argument":{"name":"a","value":"v"}})),
        "setlevel" => rq("logging/setLevel", json!({"level":"info"})),
        "elicit" => rq("elicitation/response", json!({"elicitationId":"e1","value":1,"cancelled":false})),
        "sample" => rq("sampling/createMessage", json!({"messages":[{"role":"user","content":{"type":"text","text":s(m,"text")}}]})),
        "roots" => rq("roots/list", Value::Null),
        "askuser" => rq("elicitation/elicitInput", json!({"elicitationId":"e1","inputType":"text","prompt":"p"})),
        "bad" => rq("no/such", Value::Null),
        "notif" => match s(m, "n") {
            "cancelled" => json!({"jsonrpc":"2.0","method":"notifications/cancelled","params":{"requestId":"1","reason":"r"}}),
            "progress" => json!({"jsonrpc":"2.0","method":"notifications/progress","params":{"progressToken":"t","progress":1.0}}),
            n => json!({"jsonrpc":"2.0","method":format!("notifications/{n}")}),
        },
        "resp" => json!({"jsonrpc":"2.0","id":raw_id(s(m,"id")),"result":{}}),
        t => panic!("message {t}"),
    }
}
pub fn build(c: &Value, obs: &Obs, gate: &Arc<Notify>) -> Server {
    let h = |n: &str, b: &str| Hnd { n: n.into(), b: b.into(), obs: obs.clone(), gate: gate.clone() };
    let mut caps = ServerCapabilities::default();
    if s(c, "caps").contains("tools") {
        caps.tools = Some(Default::default());
    }
    if s(c, "caps").contains("prompts") {
        caps.prompts = Some(Default::default());
    }
    if s(c, "caps").contains("resources") {
        caps.resources = Some(Default::default());
    }
    let mut b = Server::builder().name(s(c, "name")).version("1").capabilities(caps);
    for t in c["tools"].as_array().unwrap() {
        b = b.tool(s(t, "n"), h(s(t, "n"), s(t, "b")));
    }
    for t in c["prompts"].as_array().unwrap() {
        b = b.prompt(s(t, "n"), h(s(t, "n"), s(t, "b")));
    }
    if s(c, "res") != "none" {
        b = b.resources(h("", s(c, "res")));
    }
    if s(c, "samp") != "none" {
        b = b.sampling(h("", s(c, "samp")));
    }
    b.build().unwrap()
}
async fn play(o: &mut Opts, c: Value, ops: &[Value]) {
    let obs: Obs = Default::default();
    let gate = Arc::new(Notify::new());
    let (tx, rx) = mpsc::unbounded_channel();
    let srv = build(&c, &obs, &gate);
    let t = tokio::spawn(srv.run(Wire { rx, obs: obs.clone() }));
    settle_n(10).await;
    let mut tr = vec![c];
    for op in ops {
        match s(op, "e") {
            "send" => {
                for m in op["ms"].as_array().unwrap() {
                    tx.send(serde_json::to_vec(&wire(m)).unwrap()).unwrap();
                }
            }
            "open" => gate.notify_waiters(),
            e => panic!("op {e}"),
        }
        // quiescence: nothing new for many rounds
        let mut n = usize::MAX;
        loop {
            settle_n(20).await;
            let k = obs.lock().unwrap().len();
            if k == n {
                break;
            }
            n = k;
        }
        let seen: Vec<Value> = obs.lock().unwrap().drain(..).collect();
        tr.push(ev(op, json!({ "obs": seen })));
    }
    t.abort();
    o.out.put(tr);
}
pub fn gen_msg(r: &mut Rng) -> Value {
    let ids = ["n:1", "n:2", "s:1", "n:-1", "n:0", "s:", "s:abc", "n:9007199254740993", "s:é\"x"];
    let id = *r.pick(&ids);
    let id = if r.chance(1, 2) { format!("n:{}", r.below(1000)) } else { id.to_string() };
    let args = ["{}", "{\"a\":1}", "null", "[1,2,{\"x\":null}]", "\"é\"", "{\"deep\":{\"deep\":[[],{}]}}", "{\"n\":-1.5,\"t\":true}"];
    let names = ["echo", "bad", "slow", "zz", "Echo", "", "e2"];
    let rid = id[2..].to_string();
    let q = |t: &str| json!({"t":t,"id":id,"rid":rid});
    let with = |t: &str, more: &[(&str, &str)]| {
        let mut v = q(t);
        for (k, x) in more {
            v[*k] = json!(x);
        }
        v
    };
    match r.below(24) {
        0 => q("init"),
        1 => q("ping"),
        2 => q("tools"),
        3 => q("prompts"),
        4 => q("templates"),
        5..=9 => with("call", &[("name", r.pick(&names)), ("args", r.pick(&args))]),
        10..=12 => with("prompt", &[("name", r.pick(&["pf", "pr", "ps", "zz", "echo"])), ("args", r.pick(&["", "a=1;", "a=1;b=é x;"]))]),
        13 => with("list", &[("cursor", r.pick(&["", "c1"]))]),
        14 | 15 => with("read", &[("uri", r.pick(&["file:///a", "x:é", ""]))]),
        16 => q(*r.pick(&["subscribe", "unsubscribe", "complete", "setlevel", "elicit"])),
        17 | 18 => with("sample", &[("text", r.pick(&["hi", ""]))]),
        19 => q(*r.pick(&["roots", "askuser"])),
        20 | 21 => json!({"t":"notif","n":*r.pick(&["initialized","roots/list_changed","cancelled","progress"])}),
        22 => json!({"t":"resp","id":id}),
        _ => q("ping"),
    }
}
pub fn gen_cfg(r: &mut Rng) -> Value {
    let bs = ["ok", "fail", "slow", "none", "refuse", "limit"];
    let all = |r: &mut Rng, l: &[(&str, &str)]| {
        l.iter().filter(|_| r.chance(4, 5)).map(|(n, b)| json!({"n":n,"b":b})).collect::<Vec<_>>()
    };
    let mut r2 = Rng::new(r.next());
    json!({"e":"init","tools":all(r, &[("bad",*r2.pick(&["fail", "refuse", "limit"])),("e2","ok"),("echo","ok"),("slow","slow")]),
        "prompts":all(r, &[("pf",*r2.pick(&["fail", "refuse", "limit"])),("pr","ok"),("ps","slow")]),
        "res":*r.pick(&bs),"samp":*r.pick(&bs),"caps":*r.pick(&["","tools,","tools,prompts,","tools,prompts,resources,"]),"name":"srv"})
}
pub fn run(o: &mut Opts) {
    let rt = plain_rt();
    let mut r = Rng::new(o.seed);
    rt.block_on(async {
        match o.fam.as_str() {
            "script" => {
                for sc in std::mem::take(&mut o.scripts) {
                    play(o, sc[0].clone(), &sc[1..]).await;
                }
            }
            "rand" => {
                for _ in 0..o.n {
                    let c = gen_cfg(&mut r);
                    let mut ops = vec![];
                    let long = r.chance(1, 40);
                    for _ in 0..if long { 120 } else { 4 + r.below(16) } {
                        if r.chance(1, 4) {
                            ops.push(json!({"e":"open"}));
                        } else {
                            let n = 1 + if long && r.chance(1, 20) { 150 } else if r.chance(1, 3) { r.below(6) } else { 0 };
                            ops.push(json!({"e":"send","ms":(0..n).map(|_| gen_msg(&mut r)).collect::<Vec<_>>()}));
                        }
                    }
                    for _ in 0..if long { 200 } else { 16 } {
                        ops.push(json!({"e":"open"}));
                    }
                    play(o, c, &ops).await;
                }
            }
            // a request whose method does not exist
            "unknown" => {
                for k in 0..o.n {
                    let c = gen_cfg(&mut r);
                    let id = format!("n:{k}");
                    let bad = json!({"t":"bad","id":id,"rid":id[2..].to_string()});
                    let mut ops = vec![];
                    for _ in 0..r.below(4) {
                        ops.push(json!({"e":"send","ms":[gen_msg(&mut r)]}));
                        ops.push(json!({"e":"open"}));
                    }
                    ops.push(json!({"e":"send","ms":[bad]}));
                    for _ in 0..4 {
                        ops.push(json!({"e":"send","ms":[gen_msg(&mut r)]}));
                        ops.push(json!({"e":"open"}));
                    }
                    play(o, c, &ops).await;
                }
            }
            f => panic!("family {f}"),
        }
    });
}
