//! Clients and a server of the SDK, talking over a transport of the SDK (P38).
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::streamable_http_server::{StreamableHttpServer, StreamableHttpServerConfig};
use pmcp::server::transport::websocket::WebSocketServerBuilder;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::shared::streamable_http::{StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::websocket::{WebSocketConfig, WebSocketTransport};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::*;
use pmcp::{Client, Error, ErrorCode, Server};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;

/// A transport of lines within the process, written and read with the SDK's codec.
#[derive(Debug)]
struct Lines(mpsc::UnboundedSender<Vec<u8>>, mpsc::UnboundedReceiver<Vec<u8>>);
#[async_trait]
impl Transport for Lines {
    async fn send(&mut self, m: TransportMessage) -> pmcp::Result<()> {
        self.0.send(StdioTransport::serialize_message(&m)?).map_err(|_| Error::internal("gone"))
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        StdioTransport::parse_message(&self.1.recv().await.ok_or_else(|| Error::internal("gone"))?)
    }
    async fn close(&mut self) -> pmcp::Result<()> {
        Ok(())
    }
}

/// The handlers: each does what the operation under way has planned for it, and notes that it was called.
#[derive(Clone, Default)]
struct H {
    plan: Arc<Mutex<HashMap<String, Value>>>,
    saw: Arc<Mutex<Vec<Value>>>,
}
impl H {
    async fn it<T: DeserializeOwned>(&self, what: &str, key: &str, args: String, echo: impl FnOnce(&str) -> Value) -> pmcp::Result<T> {
        self.saw.lock().unwrap().push(json!([what, key, args]));
        let plan = self.plan.lock().unwrap().get(&format!("{what}:{key}")).cloned().unwrap_or(Value::Null);
        if i(&plan, "wait") > 0 {
            tokio::time::sleep(Duration::from_millis(i(&plan, "wait") as u64)).await;
        }
        match s(&plan, "do") {
            "echo" => Ok(serde_json::from_value(echo(&args)).unwrap()),
            "give" => Ok(serde_json::from_str(s(&plan, "give")).unwrap()),
            "fail" => Err(Error::internal(s(&plan, "give"))),
            "refuse" => Err(match s(&plan, "data") {
                "" => Error::protocol(ErrorCode::other(i(&plan, "code") as i32), s(&plan, "give")),
                d => Error::protocol_with_data(ErrorCode::other(i(&plan, "code") as i32), s(&plan, "give"), serde_json::from_str(d).unwrap()),
            }),
            p => panic!("unplanned call of {what} {key}: {p}"),
        }
    }
}
struct Tool(H, String);
#[async_trait]
impl ToolHandler for Tool {
    async fn handle(&self, args: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.0.it("call", &self.1, args.to_string(), |a| serde_json::from_str(a).unwrap()).await
    }
}
struct Prompt(H, String);
#[async_trait]
impl PromptHandler for Prompt {
    async fn handle(&self, args: HashMap<String, String>, _: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> {
        let args: BTreeMap<_, _> = args.into_iter().collect();
        self.0.it("prompt", &self.1, json!(args).to_string(), |a| json!({"description":a,"messages":[]})).await
    }
}
#[async_trait]
impl ResourceHandler for H {
    async fn read(&self, uri: &str, _: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
        self.it("read", uri, String::new(), |_| json!({"contents":[{"type":"resource","uri":uri,"text":uri}]})).await
    }
    async fn list(&self, cursor: Option<String>, _: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
        let c = cursor.unwrap_or_default();
        self.it("list", &c.clone(), String::new(), |_| json!({"resources":[],"nextCursor":c})).await
    }
}
#[async_trait]
impl SamplingHandler for H {
    async fn create_message(&self, p: CreateMessageParams, _: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
        self.it("sample", "", json!(p).to_string(), |a| json!({"content":{"type":"text","text":a},"model":"m"})).await
    }
}

fn told<T>(given: &str, r: pmcp::Result<T>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(v) => f(v),
        Err(Error::Protocol { code, message, data }) => {
            json!({"k":"err","code":code.as_i32(),"msg":message,"data":data.map_or(String::new(), |d| d.to_string()),"has":message.contains(given)})
        }
        Err(_) => json!({"k":"local"}),
    }
}
/// The value in the only content of a tool's result, which is its JSON text.
fn text(r: CallToolResult) -> Value {
    match (&r.content[..], r.is_error) {
        ([Content::Text { text }], false) if serde_json::from_str::<Value>(text).is_ok() => json!({"k":"ok","v":serde_json::from_str::<Value>(text).unwrap().to_string()}),
        _ => json!({"k":"odd","v":format!("{r:?}")}),
    }
}
async fn call<T: Transport>(c: &tokio::sync::RwLock<Client<T>>, op: &Value) -> Value {
    let (key, given) = (s(op, "key").to_string(), s(op, "give"));
    // what an echoing handler was called with, taken out of its answer
    let shown = |v: Value, at: &str, rest: Value| -> Value {
        let mut v = v;
        if s(op, "do") != "echo" {
            return json!({"k":"ok","v":v.to_string()});
        }
        let got = v.pointer_mut(at).map_or(Value::Null, |x| x.take());
        if v == rest { json!({"k":"ok","v":got}) } else { json!({"k":"odd","v":v.to_string()}) }
    };
    let args = |d: &str| -> Value { serde_json::from_str(if s(op, "args").is_empty() { d } else { s(op, "args") }).unwrap() };
    let cursor = || (!key.is_empty()).then(|| key.clone());
    if s(op, "what") == "hello" {
        let r = c.write().await.initialize(ClientCapabilities { roots: Some(RootsCapabilities { list_changed: true }), ..Default::default() }).await;
        return told(given, r, |r| {
            let mut caps: Vec<String> = json!(r.capabilities).as_object().unwrap().keys().cloned().collect();
            caps.sort();
            json!({"k":"ok","v":format!("{}/{}|{}|{}", r.server_info.name, r.server_info.version, r.instructions.unwrap_or_default(), caps.concat())})
        });
    }
    let c = c.read().await;
    match s(op, "what") {
        "call" => told(given, c.call_tool(key, args("{}")).await, text),
        "prompt" => told(given, c.get_prompt(key, serde_json::from_value(args("{}")).unwrap()).await, |v| shown(json!(v), "/description", json!({"description":null,"messages":[]}))),
        "read" => told(given, c.read_resource(key.clone()).await, |v| shown(json!(v), "/contents/0/text", json!({"contents":[{"type":"resource","uri":key,"text":null}]}))),
        "list" => told(given, c.list_resources(cursor()).await, |v| shown(json!(v), "/nextCursor", json!({"resources":[],"nextCursor":null}))),
        "sample" => told(given, c.create_message(serde_json::from_value(args("")).unwrap()).await, |v| shown(json!(v), "/content/text", json!({"content":{"type":"text","text":null},"model":"m"}))),
        "tools" => told(given, c.list_tools(None).await, |r| {
            let mut n: Vec<String> = r.tools.into_iter().map(|t| t.name).collect();
            n.sort();
            json!({"k":"ok","v":n.join(",")})
        }),
        "prompts" => told(given, c.list_prompts(None).await, |r| {
            let mut n: Vec<String> = r.prompts.into_iter().map(|t| t.name).collect();
            n.sort();
            json!({"k":"ok","v":n.join(",")})
        }),
        "ping" => told(given, c.ping().await, |_| json!({"k":"ok","v":""})),
        "level" => told(given, c.set_logging_level(LoggingLevel::Warning).await, |_| json!({"k":"ok","v":""})),
        "sub" => told(given, c.subscribe_resource(key).await, |_| json!({"k":"ok","v":""})),
        "unsub" => told(given, c.unsubscribe_resource(key).await, |_| json!({"k":"ok","v":""})),
        "news" => told(given, c.send_roots_list_changed().await, |_| json!({"k":"ok","v":""})),
        "progress" => told(
            given,
            c.send_progress(ProgressNotification { progress_token: ProgressToken::Number(1), progress: 0.5, message: Some("half".into()) }).await,
            |_| json!({"k":"ok","v":""}),
        ),
        w => panic!("what {w}"),
    }
}
enum Peer {
    Lines(tokio::sync::RwLock<Client<Lines>>),
    Http(tokio::sync::RwLock<Client<StreamableHttpTransport>>),
    Ws(tokio::sync::RwLock<Client<WebSocketTransport>>),
}
impl Peer {
    async fn call(&self, op: &Value) -> Value {
        match self {
            Self::Lines(c) => call(c, op).await,
            Self::Http(c) => call(c, op).await,
            Self::Ws(c) => call(c, op).await,
        }
    }
}
struct Sut {
    peers: Vec<Peer>,
    h: H,
    slow: bool,
}
/// Two names are listed and served, whatever else the server has.
pub const TOOLS: &[&str] = &["add", "t ö"];
pub const PROMPTS: &[&str] = &["ask", "p/2"];
impl Sut {
    async fn new(c: &Value, slow: bool) -> Rc<Self> {
        let h = H::default();
        let caps: Vec<&str> = c["caps"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let caps: serde_json::Map<String, Value> = caps.into_iter().map(|k| (k.to_string(), if k == "resources" && b(c, "subs") { json!({"subscribe":true}) } else { json!({}) })).collect();
        let mut sb = Server::builder().name("srv ü").version("1.2").capabilities(serde_json::from_value(Value::Object(caps)).unwrap());
        for t in TOOLS {
            sb = sb.tool(*t, Tool(h.clone(), t.to_string()));
        }
        for p in PROMPTS {
            sb = sb.prompt(*p, Prompt(h.clone(), p.to_string()));
        }
        if b(c, "serve") {
            sb = sb.resources(h.clone()).sampling(h.clone());
        }
        let server = sb.build().unwrap();
        let peers = match s(c, "via") {
            "lines" => {
                let ((a, b), (x, y)) = (mpsc::unbounded_channel(), mpsc::unbounded_channel());
                tokio::spawn(server.run(Lines(a, y)));
                vec![Peer::Lines(tokio::sync::RwLock::new(Client::new(Lines(x, b))))]
            }
            "ws" => {
                let (mut t, port) = loop {
                    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
                    let mut t = WebSocketServerBuilder::new().bind_addr(([127, 0, 0, 1], port).into()).build();
                    if t.bind().await.is_ok() {
                        break (t, port);
                    }
                };
                let ct = WebSocketTransport::new(WebSocketConfig { url: format!("ws://127.0.0.1:{port}/").parse().unwrap(), auto_reconnect: false, ping_interval: Some(Duration::from_millis(200)), ..Default::default() });
                let (a, b) = tokio::join!(t.accept(), ct.connect());
                a.unwrap();
                b.unwrap();
                tokio::spawn(server.run(t));
                vec![Peer::Ws(tokio::sync::RwLock::new(Client::new(ct)))]
            }
            via => {
                let mut conf = StreamableHttpServerConfig { enable_json_response: via == "json", ..Default::default() };
                if via == "bare" {
                    conf.session_id_generator = None;
                    conf.event_store = None;
                }
                let (addr, _) = StreamableHttpServer::with_config(([127, 0, 0, 1], 0).into(), Arc::new(tokio::sync::Mutex::new(server)), conf).start().await.unwrap();
                (0..2)
                    .map(|_| {
                        let t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
                            url: format!("http://{addr}/").parse().unwrap(),
                            extra_headers: vec![],
                            auth_provider: None,
                            session_id: None,
                            enable_json_response: via == "json",
                            on_resumption_token: None,
                        });
                        Peer::Http(tokio::sync::RwLock::new(Client::new(t)))
                    })
                    .collect()
            }
        };
        Rc::new(Sut { peers, h, slow })
    }
    async fn one(&self, op: &Value) -> Value {
        let n = (i(op, "c") as usize - 1).min(self.peers.len() - 1);
        match tokio::time::timeout(Duration::from_secs(if self.slow { 20 } else { 4 }), self.peers[n].call(op)).await {
            Ok(r) => r,
            Err(_) => kind("silent"),
        }
    }
    fn plan(&self, op: &Value) {
        self.h.plan.lock().unwrap().insert(format!("{}:{}", s(op, "what"), s(op, "key")), op.clone());
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        self.h.plan.lock().unwrap().clear();
        let mut r = if s(&op, "e") == "both" {
            self.plan(&op["x"]);
            self.plan(&op["y"]);
            let (a, b) = tokio::join!(self.one(&op["x"]), self.one(&op["y"]));
            json!({"k":"both","x":a,"y":b})
        } else {
            self.plan(&op["x"]);
            json!({"k":"one","x":self.one(&op["x"]).await})
        };
        let mut saw: Vec<Value> = self.h.saw.lock().unwrap().drain(..).collect();
        saw.sort_by_key(|x| x.to_string());
        r["saw"] = json!(saw);
        r
    }
}

fn canonical<T: DeserializeOwned + Serialize>(v: Value) -> String {
    serde_json::to_string(&serde_json::from_value::<T>(v).unwrap()).unwrap()
}
fn word(r: &mut Rng) -> String {
    let all = ["a", "", "é→😀", "x y", "tab\t\"q\"", "line\nline", "\\", "{}", "data: x\n\n", "null", "\u{0}\u{1f}", "<&>"];
    if r.chance(1, 40) {
        return r.pick(&all).repeat(r.below(2000));
    }
    (0..1 + r.below(3)).map(|_| *r.pick(&all)).collect()
}
fn value(r: &mut Rng, deep: usize) -> Value {
    match r.below(if deep == 0 { 6 } else { 8 }) {
        0 => json!(null),
        1 => json!(r.chance(1, 2)),
        2 => json!(r.range(-5, 5)),
        3 => json!(*r.pick(&[i64::MIN, i64::MAX, (1 << 53) + 1, -1])),
        4 => json!(*r.pick(&[0.5, -1.25, 1e300, 0.1])),
        5 => json!(word(r)),
        6 => (0..r.below(4)).map(|_| value(r, deep - 1)).collect(),
        _ => Value::Object((0..r.below(4)).map(|_| (word(r), value(r, deep - 1))).collect()),
    }
}
fn content(r: &mut Rng) -> Value {
    match r.below(4) {
        0 | 1 => json!({"type":"text","text":word(r)}),
        2 => json!({"type":"image","data":word(r),"mimeType":word(r)}),
        _ => {
            let mut v = json!({"type":"resource","uri":word(r)});
            if r.chance(1, 2) {
                v["text"] = json!(word(r));
            }
            if r.chance(1, 2) {
                v["mimeType"] = json!(word(r));
            }
            v
        }
    }
}
fn maybe(r: &mut Rng, v: &mut Value, k: &str) {
    if r.chance(1, 2) {
        v[k] = json!(word(r));
    }
}
fn contents(r: &mut Rng) -> Value {
    (0..r.below(4)).map(|_| content(r)).collect()
}
fn messages(r: &mut Rng) -> Value {
    (0..r.below(4)).map(|_| json!({"role":*r.pick(&["user","assistant","system"]),"content":content(r)})).collect()
}
fn one(r: &mut Rng) -> Value {
    let what = *r.pick(&["call", "call", "call", "prompt", "prompt", "read", "read", "list", "sample", "tools", "prompts", "ping", "level", "sub", "unsub", "news", "progress", "hello"]);
    let mut op = json!({"what":what,"c":r.range(1, 2),"key":"","args":"","do":"echo","give":"","code":0,"data":"","wait":if r.chance(1, 6) { 3 } else { 0 }});
    op["key"] = match what {
        "call" => json!(*r.pick(&["add", "add", "t ö", "nope"])),
        "prompt" => json!(*r.pick(&["ask", "p/2", "nope"])),
        "read" => json!(*r.pick(&["file:///a b", "x://y?z=é#f", ""])),
        "sub" | "unsub" => json!("x://y"),
        "list" => json!(*r.pick(&["", "next ü"])),
        _ => json!(""),
    };
    op["args"] = json!(match what {
        "call" => {
            if r.chance(3, 4) { Value::Object((0..r.below(4)).map(|_| (word(r), value(r, 2))).collect()) } else { value(r, 2) }.to_string()
        }
        "prompt" => json!((0..r.below(3)).map(|_| (word(r), word(r))).collect::<BTreeMap<_, _>>()).to_string(),
        "sample" => {
            let mut v = json!({"messages":messages(r)});
            maybe(r, &mut v, "systemPrompt");
            if r.chance(1, 2) {
                v["maxTokens"] = json!(7);
                v["temperature"] = json!(0.5);
            }
            canonical::<CreateMessageParams>(v)
        }
        _ => String::new(),
    });
    let (d, g) = match r.below(5) {
        0 => ("echo", String::new()),
        1 => ("fail", word(r)),
        2 => {
            op["code"] = json!(*r.pick(&[-32602, -32601, -32600, -32700, -32603, -32001, -32002, -32003, -32004, 7, -1, -32050]));
            if r.chance(1, 2) {
                op["data"] = json!(json!({"why":value(r, 2)}).to_string());
            }
            ("refuse", word(r))
        }
        _ => (
            "give",
            match what {
                "call" => value(r, 3).to_string(),
                "prompt" => {
                    let mut v = json!({"messages":messages(r)});
                    maybe(r, &mut v, "description");
                    canonical::<GetPromptResult>(v)
                }
                "read" => canonical::<ReadResourceResult>(json!({"contents":contents(r)})),
                "list" => {
                    let l: Vec<Value> = (0..r.below(3))
                        .map(|_| {
                            let mut v = json!({"uri":word(r),"name":word(r)});
                            maybe(r, &mut v, "description");
                            maybe(r, &mut v, "mimeType");
                            v
                        })
                        .collect();
                    let mut v = json!({"resources":l});
                    maybe(r, &mut v, "nextCursor");
                    canonical::<ListResourcesResult>(v)
                }
                "sample" => {
                    let mut v = json!({"content":content(r),"model":word(r)});
                    maybe(r, &mut v, "stopReason");
                    canonical::<CreateMessageResult>(v)
                }
                _ => String::new(),
            },
        ),
    };
    op["do"] = json!(d);
    op["give"] = json!(g);
    op
}

pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scripts: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n)
            .map(|_| {
                let all = ["tools", "prompts", "resources", "logging", "completions"];
                let caps: Vec<&str> = all.into_iter().filter(|_| r.chance(5, 6)).collect();
                let via = *r.pick(&["lines", "ws", "http", "json", "bare"]);
                let mut sc = vec![json!({"e":"init","via":via,"caps":caps,"subs":r.chance(1, 2),"serve":r.chance(5, 6)})];
                for c in 1..3 {
                    if r.chance(5, 6) {
                        sc.push(json!({"e":"do","x":{"what":"hello","c":c,"key":"","args":"","do":"echo","give":"","code":0,"data":"","wait":0}}));
                    }
                }
                for _ in 0..4 + r.below(10) {
                    let x = one(&mut r);
                    let mut y = one(&mut r);
                    // two handler calls under way have plans of their own, or the same
                    if (&x["what"], &x["key"]) == (&y["what"], &y["key"]) {
                        for k in ["do", "give", "code", "data", "wait"] {
                            y[k] = x[k].clone();
                        }
                    }
                    let mixes = x["what"] != "hello" && y["what"] != "hello";
                    sc.push(if mixes && r.chance(1, 3) { json!({"e":"both","x":x,"y":y}) } else { json!({"e":"do","x":x}) });
                }
                sc
            })
            .collect(),
        f => panic!("family {f}"),
    };
    for sc in scripts {
        plain_rt().block_on(async {
            let x = Sut::new(&sc[0], slow).await;
            play_seq_n(o, 200_000_000, mk_exec!(x), sc[0].clone(), sc[1..].to_vec(), false).await
        });
    }
}
