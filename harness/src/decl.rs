//! Values made with builders and constructors (P37).
use crate::core::*;
use pmcp::types::auth::{OAuthInfo, PkceMethod};
use pmcp::types::capabilities::*;
use pmcp::types::completable::*;
use pmcp::types::elicitation::*;
use pmcp::types::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// The leaves of a written value.
fn leaves(path: &str, v: &Value, out: &mut Vec<Value>) {
    let sub = |k: &str| if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
    match v {
        Value::Object(m) if !m.is_empty() => m.iter().for_each(|(k, x)| leaves(&sub(k), x, out)),
        Value::Array(a) if !a.is_empty() => a.iter().enumerate().for_each(|(k, x)| leaves(&sub(&k.to_string()), x, out)),
        Value::String(x) => out.push(json!([path, format!("s:{x}")])),
        x => out.push(json!([path, x.to_string()])),
    }
}
/// The written form, and that of what is read from it.
fn forms<V: Serialize + DeserializeOwned>(v: &V) -> (Vec<Value>, Vec<Value>) {
    let text = serde_json::to_string(v).unwrap();
    let mut a = vec![];
    leaves("", &serde_json::from_str(&text).unwrap(), &mut a);
    let mut b = vec![];
    match serde_json::from_str::<V>(&text) {
        Ok(x) => leaves("", &serde_json::to_value(&x).unwrap(), &mut b),
        Err(e) => b.push(json!(["unreadable", e.to_string()])),
    }
    (a, b)
}
fn raw(t: &str) -> Value {
    match t.strip_prefix("s:") {
        Some(x) => json!(x),
        None => serde_json::from_str(t).unwrap(),
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn opt(v: &Value) -> Option<String> {
    v.as_array().unwrap().first().map(|x| x.as_str().unwrap().to_string())
}
fn options(l: &Value) -> Vec<SelectOption> {
    l.as_array().unwrap().iter().map(|x| SelectOption { value: raw(s(x, "v")), label: s(x, "l").into(), description: opt(&x["about"]), disabled: b(x, "off") }).collect()
}
fn elicit(op: &Value) -> Value {
    let pr = s(op, "prompt");
    let new = |t| ElicitInputBuilder::new(t, pr);
    let mut x = match s(op, "ctor") {
        "text" => elicit_text(pr),
        "boolean" => elicit_boolean(pr),
        "select" => elicit_select(pr, options(&op["l"])),
        "number" => elicit_number(pr),
        "file" => elicit_file(pr),
        "textarea" => new(InputType::Textarea),
        "multiSelect" => new(InputType::MultiSelect),
        "directoryPath" => new(InputType::DirectoryPath),
        "password" => new(InputType::Password),
        "date" => new(InputType::Date),
        "time" => new(InputType::Time),
        "dateTime" => new(InputType::DateTime),
        "color" => new(InputType::Color),
        "url" => new(InputType::Url),
        "email" => new(InputType::Email),
        t => panic!("type {t}"),
    };
    for y in op["sets"].as_array().unwrap() {
        x = match s(y, "w") {
            "id" => x.id(s(y, "v")),
            "desc" => x.description(s(y, "v")),
            "default" => x.default(raw(s(y, "v"))),
            "required" => x.required(),
            "min" => x.min(s(y, "v").parse().unwrap()),
            "max" => x.max(s(y, "v").parse().unwrap()),
            "pattern" => x.pattern(s(y, "v")),
            "options" => x.options(options(&y["l"])),
            "meta" => x.metadata(s(y, "key"), raw(s(y, "v"))),
            w => panic!("setting {w}"),
        };
    }
    let x = x.build();
    let (form, back) = forms(&x);
    json!({"k":"made","says":[],"form":form,"back":back,"id":x.elicitation_id})
}
fn argument(op: &Value) -> Value {
    let mut x = completable(s(op, "name"));
    for y in op["sets"].as_array().unwrap() {
        x = match s(y, "w") {
            "desc" => x.description(s(y, "v")),
            "required" => x.required(),
            "values" => x.static_completions(strs(&y["l"])),
            "files" => x.file_completions(),
            w => panic!("setting {w}"),
        };
    }
    let (form, back) = forms(&x.build());
    json!({"k":"made","says":[],"form":form,"back":back})
}
fn auth(op: &Value) -> Value {
    let x = match s(op, "kind") {
        "none" => AuthInfo::none(),
        "bearer" => AuthInfo::bearer(s(op, "token")),
        _ => AuthInfo::oauth2(OAuthInfo {
            auth_url: s(op, "at").into(),
            token_url: s(op, "token").into(),
            client_id: s(op, "client").into(),
            scopes: op["scopes"].as_array().unwrap().first().map(strs),
            redirect_uri: opt(&op["back"]),
            pkce_method: opt(&op["proof"]).map(|m| if m == "S256" { PkceMethod::S256 } else { PkceMethod::Plain }),
        }),
    };
    let (form, back) = forms(&x);
    let mut says: Vec<String> = x.authorization_header().into_iter().collect();
    if x.is_required() {
        says.push("required".into());
    }
    json!({"k":"made","says":says,"form":form,"back":back})
}
fn caps(op: &Value) -> Value {
    let d = op["decl"].as_array().unwrap();
    let of = |c: &str| d.iter().find(|x| x["c"] == c).map(|x| x["s"].as_array().unwrap().clone());
    let flag = |q: &[Value], k: &str| q.iter().find(|y| y[0] == k).map(|y| y[1] == "true");
    let list = |q: &[Value], k: &str| -> Option<Vec<String>> {
        let l: Vec<String> = q.iter().filter(|y| y[0].as_str().unwrap().starts_with(k)).map(|y| y[1].as_str().unwrap()[2..].to_string()).collect();
        (!l.is_empty()).then_some(l)
    };
    let tools = of("tools").map(|q| ToolCapabilities { list_changed: flag(&q, "listChanged") });
    let prompts = of("prompts").map(|q| PromptCapabilities { list_changed: flag(&q, "listChanged") });
    let resources = of("resources").map(|q| ResourceCapabilities { subscribe: flag(&q, "subscribe"), list_changed: flag(&q, "listChanged") });
    let logging = of("logging").map(|q| LoggingCapabilities { levels: list(&q, "levels") });
    let sampling = of("sampling").map(|q| SamplingCapabilities { models: list(&q, "models") });
    let experimental = of("experimental").map(|q| q.iter().map(|y| (y[0].as_str().unwrap().to_string(), raw(y[1].as_str().unwrap()))).collect());
    let (says, (form, back)) = if s(op, "who") == "client" {
        let x = match s(op, "preset") {
            "minimal" => ClientCapabilities::minimal(),
            "full" => ClientCapabilities::full(),
            _ => ClientCapabilities {
                tools,
                prompts,
                resources,
                logging,
                sampling,
                roots: of("roots").map(|q| RootsCapabilities { list_changed: flag(&q, "listChanged").unwrap_or(false) }),
                experimental,
            },
        };
        (vec![("tools", x.supports_tools()), ("prompts", x.supports_prompts()), ("resources", x.supports_resources()), ("sampling", x.supports_sampling())], forms(&x))
    } else {
        let x = match s(op, "preset") {
            "minimal" => ServerCapabilities::minimal(),
            "tools" => ServerCapabilities::tools_only(),
            "prompts" => ServerCapabilities::prompts_only(),
            "resources" => ServerCapabilities::resources_only(),
            _ => ServerCapabilities { tools, prompts, resources, logging, completions: of("completions").map(|_| CompletionCapabilities::default()), sampling, experimental },
        };
        (vec![("tools", x.provides_tools()), ("prompts", x.provides_prompts()), ("resources", x.provides_resources())], forms(&x))
    };
    let says: Vec<&str> = says.into_iter().filter(|x| x.1).map(|x| x.0).collect();
    json!({"k":"made","says":says,"form":form,"back":back})
}
pub fn play(o: &mut Opts, c: Value, ops: &[Value]) {
    let mut tr = vec![c];
    for op in ops {
        let r = guard(|| match s(op, "e") {
            "elicit" => elicit(op),
            "argument" => argument(op),
            "auth" => auth(op),
            "caps" => caps(op),
            e => panic!("op {e}"),
        });
        tr.push(ev(op, r));
    }
    o.out.put(tr);
}
const TEXTS: &[&str] = &["", "a", "two words", "\"q\"", "back\\slash", "é", "line\nbreak", "{}", "null"];
fn one(r: &mut Rng) -> Value {
    let text = |r: &mut Rng| r.pick(TEXTS).to_string();
    let leaf = |r: &mut Rng| match r.below(3) {
        0 => r.pick(&["1", "-2.5", "true", "false", "0", "{}", "[]"]).to_string(),
        _ => format!("s:{}", r.pick(TEXTS)),
    };
    let list = |r: &mut Rng| -> Value { (0..r.below(4)).map(|_| json!(r.pick(TEXTS))).collect() };
    let opts = |r: &mut Rng| -> Value {
        (0..r.below(4))
            .map(|_| {
                let about: Vec<&str> = if r.chance(1, 2) { vec![] } else { vec![*r.pick(TEXTS)] };
                json!({"v":leaf(r),"l":text(r),"about":about,"off":r.chance(1, 2)})
            })
            .collect()
    };
    let maybe = |r: &mut Rng| -> Value { if r.chance(1, 2) { json!([]) } else { json!([r.pick(TEXTS)]) } };
    match r.below(8) {
        0..=3 => {
            let ctor = *r.pick(&["text", "boolean", "select", "number", "file", "textarea", "multiSelect", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"]);
            let sets: Vec<Value> = (0..r.below(8))
                .map(|_| match r.below(9) {
                    0 => json!({"w":"id","v":text(r)}),
                    1 => json!({"w":"desc","v":text(r)}),
                    2 => json!({"w":"default","v":leaf(r)}),
                    3 => json!({"w":"required"}),
                    4 => json!({"w":"min","v":r.pick(&["0.0", "-1.5", "100.25"])}),
                    5 => json!({"w":"max","v":r.pick(&["0.0", "-1.5", "100.25"])}),
                    6 => json!({"w":"pattern","v":text(r)}),
                    7 => json!({"w":"options","l":opts(r)}),
                    _ => json!({"w":"meta","key":r.pick(&["k", "unit", "é", "x-y"]),"v":leaf(r)}),
                })
                .collect();
            json!({"e":"elicit","ctor":ctor,"prompt":text(r),"l":if ctor == "select" { opts(r) } else { json!([]) },"sets":sets})
        }
        4 => {
            let sets: Vec<Value> = (0..r.below(6))
                .map(|_| match r.below(4) {
                    0 => json!({"w":"desc","v":text(r)}),
                    1 => json!({"w":"required"}),
                    2 => json!({"w":"values","l":list(r)}),
                    _ => json!({"w":"files"}),
                })
                .collect();
            json!({"e":"argument","name":text(r),"sets":sets})
        }
        5 => match r.below(4) {
            0 => json!({"e":"auth","kind":"none"}),
            1 => json!({"e":"auth","kind":"bearer","token":text(r)}),
            _ => {
                let scopes = if r.chance(1, 2) { json!([]) } else { json!([list(r)]) };
                let proof: Vec<&str> = if r.chance(1, 3) { vec![] } else { vec![*r.pick(&["S256", "plain"])] };
                json!({"e":"auth","kind":"oauth","at":text(r),"token":text(r),"client":text(r),"scopes":scopes,"back":maybe(r),"proof":proof})
            }
        },
        _ => {
            let who = *r.pick(&["client", "server"]);
            let all = if who == "client" { ["tools", "prompts", "resources", "logging", "sampling", "roots", "experimental"] } else { ["tools", "prompts", "resources", "logging", "sampling", "completions", "experimental"] };
            let mut d = vec![];
            for c in all {
                if !r.chance(2, 5) {
                    continue;
                }
                let mut q = vec![];
                let f = |r: &mut Rng, k: &str, q: &mut Vec<Value>| {
                    if r.chance(2, 3) {
                        q.push(json!([k, r.pick(&["true", "false"])]));
                    }
                };
                match c {
                    "tools" | "prompts" => f(r, "listChanged", &mut q),
                    "resources" => {
                        f(r, "subscribe", &mut q);
                        f(r, "listChanged", &mut q);
                    }
                    "logging" | "sampling" => (0..r.below(3)).for_each(|k| q.push(json!([format!("{}.{k}", if c == "logging" { "levels" } else { "models" }), format!("s:{}", text(r))]))),
                    "roots" => q.push(json!(["listChanged", r.pick(&["true", "false"])])),
                    "experimental" => {
                        for k in ["x", "y.z"] {
                            if r.chance(1, 2) {
                                q.push(json!([k, leaf(r)]));
                            }
                        }
                    }
                    _ => {}
                }
                d.push(json!({"c":c,"s":q}));
            }
            json!({"e":"caps","who":who,"preset":"none","decl":d})
        }
    }
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc[0].clone(), &sc[1..]);
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let ops: Vec<Value> = (0..12).map(|_| one(&mut r)).collect();
                play(o, json!({"e":"init"}), &ops);
            }
        }
        f => panic!("family {f}"),
    }
}
