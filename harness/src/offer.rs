//! What the server offers, changed at run time (P22).
use crate::core::*;
use crate::mk_exec;
use async_trait::async_trait;
use pmcp::server::dynamic::{DynamicConfigBuilder, DynamicServerManager};
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::types::*;
use pmcp::{RequestHandlerExtra, Result, Server};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

struct H(i64);
#[async_trait]
impl ToolHandler for H {
    async fn handle(&self, _a: Value, _x: RequestHandlerExtra) -> Result<Value> {
        Ok(json!(self.0))
    }
}
#[async_trait]
impl PromptHandler for H {
    async fn handle(&self, _a: HashMap<String, String>, _x: RequestHandlerExtra) -> Result<GetPromptResult> {
        Ok(GetPromptResult { description: Some(self.0.to_string()), messages: vec![] })
    }
}
#[async_trait]
impl ResourceHandler for H {
    async fn read(&self, _u: &str, _x: RequestHandlerExtra) -> Result<ReadResourceResult> {
        Ok(ReadResourceResult { contents: vec![] })
    }
    async fn list(&self, _c: Option<String>, _x: RequestHandlerExtra) -> Result<ListResourcesResult> {
        Ok(ListResourcesResult { resources: vec![], next_cursor: None })
    }
}
#[async_trait]
impl SamplingHandler for H {
    async fn create_message(&self, _p: CreateMessageParams, _x: RequestHandlerExtra) -> Result<CreateMessageResult> {
        Err(pmcp::Error::internal("no"))
    }
}
fn info(n: &str) -> ToolInfo {
    ToolInfo { name: n.into(), description: None, input_schema: json!({}) }
}
fn pinfo(n: &str) -> PromptInfo {
    PromptInfo { name: n.into(), description: None, arguments: None }
}
type Ears = Arc<Mutex<Vec<Vec<Value>>>>;
struct Sut {
    m: DynamicServerManager,
    ears: Ears,
}
fn names(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
/// JSON text with the keys in order.
fn sorted(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut l: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json!(k), sorted(v))).collect();
            l.sort();
            format!("{{{}}}", l.join(","))
        }
        v => v.to_string(),
    }
}
/// The capabilities by kind, each as its JSON text ("" if absent).
fn told(c: &ServerCapabilities) -> Value {
    let mut v = serde_json::to_value(c).unwrap();
    let mut out = json!({});
    for q in ["tools", "prompts", "resources", "sampling"] {
        out[q] = json!(v.as_object_mut().unwrap().remove(q).map_or(String::new(), |x| sorted(&x)));
    }
    out["rest"] = json!(sorted(&v));
    out
}
impl Sut {
    fn new(c: &Value) -> Rc<Self> {
        let mut caps: Value = serde_json::from_str(s(&c["caps"], "rest")).unwrap();
        for q in ["tools", "prompts", "resources", "sampling"] {
            if s(&c["caps"], q) != "" {
                caps[q] = serde_json::from_str(s(&c["caps"], q)).unwrap();
            }
        }
        let caps: ServerCapabilities = serde_json::from_value(caps).unwrap();
        let mut sb = Server::builder().name("s").version("1").capabilities(caps);
        for n in names(&c["own"]["tools"]) {
            sb = sb.tool(n, H(-1));
        }
        for n in names(&c["own"]["prompts"]) {
            sb = sb.prompt(n, H(-1));
        }
        Rc::new(Sut { m: DynamicServerManager::new(Arc::new(sb.build().unwrap())), ears: Default::default() })
    }
    async fn exec(self: Rc<Self>, op: Value) -> Value {
        let rs = |r: Result<()>| kind(if r.is_ok() { "ok" } else { "err" });
        let n = || s(&op, "n").to_string();
        let tools = op["q"] == "tools";
        let res = op["q"] == "resources";
        match s(&op, "e") {
            "add" if tools => rs(self.m.add_tool(n(), Arc::new(H(i(&op, "v"))), info(&n())).await),
            "add" => rs(self.m.add_prompt(n(), Arc::new(H(i(&op, "v"))), pinfo(&n())).await),
            "rm" if tools => rs(self.m.remove_tool(&n()).await),
            "rm" => rs(self.m.remove_prompt(&n()).await),
            "set" if res => rs(self.m.set_resource_handler(Arc::new(H(0))).await),
            "set" => rs(self.m.set_sampling_handler(Arc::new(H(0))).await),
            "unset" if res => rs(self.m.remove_resource_handler().await),
            "unset" => rs(self.m.remove_sampling_handler().await),
            "reload" => {
                let mut cb = DynamicConfigBuilder::new();
                for x in op["tools"].as_array().unwrap() {
                    cb = cb.tool(s(x, "n"), Arc::new(H(i(x, "v"))), info(s(x, "n")));
                }
                for x in op["prompts"].as_array().unwrap() {
                    cb = cb.prompt(s(x, "n"), Arc::new(H(i(x, "v"))), pinfo(s(x, "n")));
                }
                if b(&op, "resources") {
                    cb = cb.resources(Arc::new(H(0)));
                }
                if b(&op, "sampling") {
                    cb = cb.sampling(Arc::new(H(0)));
                }
                rs(self.m.reload_configuration(cb.build()).await)
            }
            "listen" => {
                // the listener is known once it is registered
                let (ears, me) = (self.ears.clone(), Arc::new(Mutex::new(None::<usize>)));
                let (e2, m2) = (ears.clone(), me.clone());
                self.m
                    .add_capability_listener(move |c| {
                        let mut l = e2.lock().unwrap();
                        let k = *m2.lock().unwrap().get_or_insert_with(|| {
                            l.push(vec![]);
                            l.len() - 1
                        });
                        l[k].push(told(c));
                    })
                    .await;
                let mut l = ears.lock().unwrap();
                me.lock().unwrap().get_or_insert_with(|| {
                    l.push(vec![]);
                    l.len() - 1
                });
                kind("ok")
            }
            "has" => json!({"k":"ok","b": if tools { self.m.has_tool(&n()).await } else { self.m.has_prompt(&n()).await }}),
            "all" => {
                let x = RequestHandlerExtra::new("x".into(), Default::default());
                let mut all = vec![];
                if tools {
                    for (n, h) in self.m.get_dynamic_tools().await {
                        all.push(json!({"n":n,"v":h.handle(json!({}), x.clone()).await.unwrap()}));
                    }
                } else {
                    for (n, h) in self.m.get_dynamic_prompts().await {
                        let d = h.handle(HashMap::new(), x.clone()).await.unwrap().description.unwrap();
                        all.push(json!({"n":n,"v":d.parse::<i64>().unwrap()}));
                    }
                }
                json!({"k":"ok","all":all})
            }
            "look" => {
                let mut l = self.ears.lock().unwrap();
                let t: Vec<Vec<Value>> = l.iter_mut().map(std::mem::take).collect();
                json!({"k":"ok","told":t})
            }
            e => panic!("op {e}"),
        }
    }
}
fn pick_s<'a>(r: &mut Rng, v: &[&'a str]) -> &'a str {
    v[r.below(v.len())]
}
fn rand_op(r: &mut Rng, names: &[&str]) -> Value {
    let q = pick_s(r, &["tools", "prompts"]);
    let n = pick_s(r, names);
    let h = pick_s(r, &["resources", "sampling"]);
    match r.below(20) {
        0..=5 => json!({"e":"add","q":q,"n":n,"v":r.range(1, 9)}),
        6..=9 => json!({"e":"rm","q":q,"n":n}),
        10 | 11 => json!({"e":"set","q":h}),
        12 | 13 => json!({"e":"unset","q":h}),
        14 => {
            let list = |r: &mut Rng| -> Vec<Value> {
                names.iter().filter_map(|n| r.chance(1, 3).then(|| json!({"n":n,"v":r.range(1, 9)}))).collect()
            };
            json!({"e":"reload","tools":list(r),"prompts":list(r),"resources":r.chance(1, 4),"sampling":r.chance(1, 4)})
        }
        15 => json!({"e":"listen"}),
        16 | 17 => json!({"e":"has","q":q,"n":n}),
        _ => json!({"e":"all","q":q}),
    }
}
fn rand_cfg(r: &mut Rng) -> Value {
    let caps = json!({
        "tools": pick_s(r, &["", "{}", "{\"listChanged\":false}"]), "prompts": pick_s(r, &["", "", "{\"listChanged\":true}"]),
        "resources": pick_s(r, &["", "{\"subscribe\":false}"]), "sampling": pick_s(r, &["", "{\"models\":[\"m\"]}"]),
        "rest": pick_s(r, &["{}", "{\"logging\":{}}", "{\"completions\":{},\"experimental\":{\"x\":1}}"])});
    json!({"e":"init","caps":caps,"own":{"tools":(["t1", "t3"][..r.below(3)]).to_vec(),"prompts":(["t2"][..r.below(2)]).to_vec()}})
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&sc[0])), sc[0].clone(), sc[1..].to_vec(), true));
            }
        }
        "rand" => {
            let names = ["t1", "t2", "t3", "t4", "\u{e9} x"];
            for _ in 0..o.n {
                let c = rand_cfg(&mut r);
                let k = 1 + r.below(names.len());
                let ops: Vec<Value> = (0..5 + r.below(30)).map(|n| if n < 2 { json!({"e":"listen"}) } else { rand_op(&mut r, &names[..k]) }).collect();
                plain_rt().block_on(play_seq(o, mk_exec!(Sut::new(&c)), c.clone(), ops, true));
            }
        }
        // very many of them
        "crowd" => {
            for _ in 0..o.n {
                let c = rand_cfg(&mut r);
                let k = 70 + r.below(60) as i64;
                let q = *r.pick(&["tools", "prompts"]);
                let mut ops = vec![json!({"e":"listen"})];
                ops.extend((0..k).map(|n| json!({"e":"add","q":q,"n":format!("x{n}"),"v":n})));
                for _ in 0..12 {
                    let n = format!("x{}", *r.pick(&[0, 1, 31, 63, 64, 65, k / 2, k - 1, k]));
                    ops.push(match r.below(4) {
                        0 => json!({"e":"all","q":q}),
                        1 => json!({"e":"rm","q":q,"n":n}),
                        2 => json!({"e":"add","q":q,"n":n,"v":1000}),
                        _ => json!({"e":"has","q":q,"n":n}),
                    });
                }
                plain_rt().block_on(play_seq_n(o, 20_000, mk_exec!(Sut::new(&c)), c.clone(), ops, false));
            }
        }
        "conc" => {
            let c = json!({"e":"init","caps":{"tools":"","prompts":"","resources":"{\"subscribe\":false}","sampling":"","rest":"{}"},"own":{"tools":["t1"],"prompts":[]}});
            let add = |q: &str, n: &str, v: i64| json!({"e":"add","q":q,"n":n,"v":v});
            let rm = |q: &str, n: &str| json!({"e":"rm","q":q,"n":n});
            let has = |q: &str, n: &str| json!({"e":"has","q":q,"n":n});
            let all = |q: &str| json!({"e":"all","q":q});
            let set = |q: &str| json!({"e":"set","q":q});
            let unset = |q: &str| json!({"e":"unset","q":q});
            let reload = |t: &[&str], p: &[&str]| {
                let l = |x: &[&str]| x.iter().map(|n| json!({"n":n,"v":7})).collect::<Vec<_>>();
                json!({"e":"reload","tools":l(t),"prompts":l(p),"resources":false,"sampling":true})
            };
            let (look, listen) = (json!({"e":"look"}), json!({"e":"listen"}));
            let pre = vec![listen.clone(), add("tools", "a", 1), add("prompts", "a", 1), look.clone()];
            let mut sets = vec![
                vec![vec![add("tools", "b", 2)], vec![rm("tools", "a")]],
                vec![vec![rm("tools", "a")], vec![rm("tools", "a")]],
                vec![vec![add("tools", "b", 2)], vec![add("prompts", "b", 2)]],
                vec![vec![rm("tools", "a")], vec![rm("prompts", "a")], vec![set("resources")]],
                vec![vec![reload(&["b", "c"], &["d"])], vec![has("tools", "a"), has("prompts", "a")], vec![add("tools", "e", 3)]],
                vec![vec![reload(&["a"], &["a"])], vec![has("tools", "a"), has("prompts", "a")], vec![all("tools")]],
                vec![vec![reload(&["a", "b"], &[])], vec![all("prompts"), all("tools")]],
                vec![vec![reload(&["a", "b"], &[])], vec![reload(&["c"], &["e"])]],
                vec![vec![set("resources"), unset("resources")], vec![set("sampling"), listen.clone()]],
                vec![vec![listen.clone()], vec![add("prompts", "b", 2)], vec![rm("prompts", "a")]],
            ];
            for _ in 0..4 {
                sets.push((0..3).map(|_| (0..2).map(|_| rand_op(&mut r, &["a", "b"])).collect()).collect());
            }
            play_conc(o, &|c| mk_exec!(Sut::new(c)), &c, &pre, &sets, &[look, all("tools"), all("prompts")]);
        }
        f => panic!("family {f}"),
    }
}
