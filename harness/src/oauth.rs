//! OAuth provider and access checks driver (spec/OAuth.tla).
use crate::core::*;
use async_trait::async_trait;
use pmcp::server::auth::middleware::*;
use pmcp::server::auth::oauth2::*;
use pmcp::types::auth::{AuthInfo, AuthScheme};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Names {
    of: HashMap<String, String>,
    real: HashMap<String, String>,
    n: HashMap<char, usize>,
}
impl Names {
    fn put(&mut self, real: &str, name: String) -> String {
        self.of.insert(real.into(), name.clone());
        self.real.insert(name.clone(), real.into());
        name
    }
    fn name(&mut self, kind: char, real: &str) -> String {
        if let Some(x) = self.of.get(real) {
            return x.clone();
        }
        let n = self.n.entry(kind).or_insert(0);
        *n += 1;
        let nm = format!("{kind}{n}");
        self.put(real, nm)
    }
    /// A pair issued together gets matching names.
    fn pair(&mut self, a: &str, r: &str) -> (String, String) {
        if self.of.contains_key(a) || self.of.contains_key(r) {
            return (format!("reused-{a}"), format!("reused-{r}"));
        }
        let n = self.n.entry('a').or_insert(0);
        *n += 1;
        let (x, y) = (format!("a{n}"), format!("r{n}"));
        (self.put(a, x), self.put(r, y))
    }
}
fn hash(v: &str) -> String {
    use base64::Engine;
    use sha2::Digest;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(sha2::Sha256::digest(v.as_bytes()))
}
/// Symbolic proof keys: "H:x" is the hash of x.
fn pk(v: &str) -> String {
    match v.strip_prefix("H:") {
        Some(x) => hash(&pk(x)),
        None => v.to_string(),
    }
}
fn opt(v: &str) -> Option<String> {
    (v != "none").then(|| v.to_string())
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

struct Stub {
    ok: bool,
    id: String,
    code: i32,
    scopes: Vec<String>,
    ran: Arc<Mutex<Vec<String>>>,
}
#[async_trait]
impl AuthMiddleware for Stub {
    async fn authenticate(&self, _a: Option<&AuthInfo>) -> pmcp::Result<AuthContext> {
        self.ran.lock().unwrap().push(self.id.clone());
        if self.ok {
            Ok(AuthContext { client_id: self.id.clone(), user_id: self.id.clone(), scopes: self.scopes.clone(), metadata: Default::default() })
        } else {
            Err(pmcp::Error::protocol(pmcp::ErrorCode(self.code), "stub"))
        }
    }
}

#[derive(Clone)]
struct Sut {
    p: Arc<InMemoryOAuthProvider>,
    n: Rc<RefCell<Names>>,
}
impl Sut {
    fn new() -> Sut {
        Sut { p: Arc::new(InMemoryOAuthProvider::new("http://x")), n: Default::default() }
    }
    fn real(&self, name: &str) -> String {
        self.n.borrow().real.get(name).cloned().unwrap_or_else(|| name.to_string())
    }
    fn grant(&self, r: pmcp::Result<AccessToken>) -> Value {
        match r {
            Ok(t) => {
                let (a, rr) = self.n.borrow_mut().pair(&t.access_token, t.refresh_token.as_deref().unwrap_or("missing"));
                json!({"k":"ok","a":a,"r":rr,"exp":t.expires_in.unwrap_or(0),
                    "scopes":t.scope.unwrap_or_default().split_whitespace().collect::<Vec<_>>()})
            }
            Err(_) => kind("err"),
        }
    }
    fn mw(&self, m: &Value, ran: &Arc<Mutex<Vec<String>>>) -> Box<dyn AuthMiddleware> {
        match s(m, "t") {
            "bearer" => Box::new(BearerTokenMiddleware::new(self.p.clone()).with_required(b(m, "req"))),
            "cc" => Box::new(ClientCredentialsMiddleware::new(self.p.clone())),
            "stub" => Box::new(Stub { ok: b(m, "ok"), id: s(m, "id").into(), code: i(m, "code") as i32, scopes: strs(&m["scopes"]), ran: ran.clone() }),
            "scope" => {
                let inner = self.mw(&m["inner"], ran);
                let sc = strs(&m["scopes"]);
                Box::new(if b(m, "all") { ScopeMiddleware::all(inner, sc) } else { ScopeMiddleware::any(inner, sc) })
            }
            "comp" => {
                let l = m["list"].as_array().unwrap().iter().map(|x| self.mw(x, ran)).collect();
                Box::new(CompositeMiddleware::new(l).with_require_any(b(m, "any")))
            }
            t => panic!("mw {t}"),
        }
    }
    fn secret(&self, c: &OAuthClient, given: &str) -> String {
        let id = self.n.borrow_mut().name('k', &c.client_id);
        let sec = c.client_secret.clone().unwrap_or("missing".into());
        if sec == given {
            return sec;
        }
        let nm = format!("gen:{id}");
        let mut n = self.n.borrow_mut();
        if let Some(x) = n.of.get(&sec) {
            return x.clone();
        }
        n.put(&sec, nm)
    }
    async fn exec(self, op: Value) -> Value {
        let op = &op;
        match s(op, "e") {
            "register" => {
                let c = OAuthClient {
                    client_id: s(op, "id").into(),
                    client_secret: opt(s(op, "secret")),
                    client_name: "n".into(),
                    redirect_uris: strs(&op["redirects"]),
                    grant_types: vec![GrantType::AuthorizationCode],
                    response_types: strs(&op["rtypes"]).iter().map(|x| if x == "code" { ResponseType::Code } else { ResponseType::Token }).collect(),
                    scopes: strs(&op["scopes"]),
                    metadata: HashMap::new(),
                };
                if s(op, "id") != "" {
                    let id = s(op, "id");
                    self.n.borrow_mut().put(id, id.into());
                }
                match self.p.register_client(c).await {
                    Ok(c) => {
                        let sec = self.secret(&c, s(op, "secret"));
                        json!({"k":"ok","id":self.n.borrow_mut().name('k', &c.client_id),"secret":sec})
                    },
                    Err(_) => kind("err"),
                }
            }
            "getclient" => match self.p.get_client(&self.real(s(op, "id"))).await {
                Ok(Some(c)) => {
                    let id = self.n.borrow_mut().name('k', &c.client_id);
                    let sec = c.client_secret.clone().unwrap_or("missing".into());
                    let sec = self.n.borrow().of.get(&sec).cloned().unwrap_or(sec);
                    json!({"k":"ok","id":id,"secret":sec})
                }
                Ok(None) => kind("none"),
                Err(_) => kind("err"),
            },
            "authorize" => {
                let rq = AuthorizationRequest {
                    response_type: if s(op, "rtype") == "code" { ResponseType::Code } else { ResponseType::Token },
                    client_id: self.real(s(op, "id")),
                    redirect_uri: s(op, "redirect").into(),
                    scope: strs(&op["scopes"]).join(" "),
                    state: None,
                    code_challenge: None,
                    code_challenge_method: None,
                };
                match self.p.validate_authorization(&rq).await {
                    Ok(()) => kind("ok"),
                    Err(_) => kind("err"),
                }
            }
            "code" => {
                let r = self
                    .p
                    .create_authorization_code(
                        &self.real(s(op, "id")),
                        s(op, "user"),
                        s(op, "redirect"),
                        strs(&op["scopes"]),
                        opt(s(op, "ch")).map(|c| pk(&c)),
                        opt(s(op, "m")),
                    )
                    .await;
                match r {
                    Ok(c) => {
                        let known = self.n.borrow().of.contains_key(&c);
                        json!({"k":"ok","code": if known { "reused".to_string() } else { self.n.borrow_mut().name('c', &c) }})
                    }
                    Err(_) => kind("err"),
                }
            }
            "token" => {
                let r = self.p.create_access_token(&self.real(s(op, "id")), s(op, "user"), strs(&op["scopes"])).await;
                self.grant(r)
            }
            "exchange" => {
                let g = match s(op, "grant") {
                    "authorization_code" => GrantType::AuthorizationCode,
                    "refresh_token" => GrantType::RefreshToken,
                    "password" => GrantType::Password,
                    _ => GrantType::ClientCredentials,
                };
                let rq = TokenRequest {
                    grant_type: g,
                    code: opt(s(op, "code")).map(|c| self.real(&c)),
                    redirect_uri: opt(s(op, "redirect")),
                    client_id: opt(s(op, "id")).map(|c| self.real(&c)),
                    client_secret: None,
                    refresh_token: None,
                    username: None,
                    password: None,
                    scope: None,
                    code_verifier: opt(s(op, "v")).map(|v| pk(&v)),
                };
                let r = self.p.exchange_code(&rq).await;
                self.grant(r)
            }
            "refresh" => {
                let r = self.p.refresh_token(&self.real(s(op, "r0"))).await;
                self.grant(r)
            }
            "revoke" => match self.p.revoke_token(&self.real(s(op, "x"))).await {
                Ok(()) => kind("ok"),
                Err(_) => kind("err"),
            },
            "validate" => match self.p.validate_token(&self.real(s(op, "a0"))).await {
                Ok(t) if t.token == self.real(s(op, "a0")) => {
                    let c = self.n.borrow().of.get(&t.client_id).cloned().unwrap_or(t.client_id);
                    json!({"k":"ok","client":c,"user":t.user_id,"scopes":t.scopes,"exp":t.expires_at as i64 - 1_800_000_000})
                }
                Ok(_) => kind("foreign"),
                Err(_) => kind("err"),
            },
            "advance" => {
                vadvance_ms(i(op, "d") * 1000);
                kind("ok")
            }
            "auth" => {
                let ran = Arc::new(Mutex::new(vec![]));
                let m = self.mw(&op["mw"], &ran);
                let c = &op["cred"];
                let mut params: HashMap<String, Value> = HashMap::new();
                for (f, k) in [("cid", "client_id"), ("csec", "client_secret")] {
                    if s(c, f) != "none" {
                        params.insert(k.into(), json!(self.real(s(c, f))));
                    }
                }
                let scheme = match s(c, "scheme") {
                    "bearer" => AuthScheme::Bearer,
                    "oauth2" => AuthScheme::OAuth2,
                    "none" => AuthScheme::None,
                    x => AuthScheme::Custom(x.into()),
                };
                let info = AuthInfo { scheme, token: opt(s(c, "token")).map(|t| self.real(&t)), oauth: None, params };
                let r = m.authenticate((s(c, "scheme") != "absent").then_some(&info)).await;
                let ran = ran.lock().unwrap().clone();
                let out = match r {
                    Ok(x) => {
                        let nm = |x: &str| self.n.borrow().of.get(x).cloned().unwrap_or(x.to_string());
                        json!({"k":"ok","client":nm(&x.client_id),"user":nm(&x.user_id),"scopes":x.scopes,"code":0,"ran":ran})
                    }
                    Err(e) => json!({"k":"err","client":"","user":"","scopes":[],"code":e.error_code().map(|c| c.0).unwrap_or(0),"ran":ran}),
                };
                json!({"out":out,"req":m.is_required()})
            }
            e => panic!("op {e}"),
        }
    }
}
fn cfg(n: usize) -> Value {
    json!({"e":"init","cl":(1..=n).map(|x| format!("k{x}")).collect::<Vec<_>>(),
        "co":(1..=n).map(|x| format!("c{x}")).collect::<Vec<_>>(),
        "to":(1..=n).map(|x| json!({"a":format!("a{x}"),"r":format!("r{x}")})).collect::<Vec<_>>()})
}
async fn play(o: &mut Opts, c: Value, ops: Vec<Value>) {
    virtual_clock(true);
    let sut = Sut::new();
    let mut tr = vec![c];
    for op in ops {
        let r = match bounded(400, guard_async(sut.clone().exec(op.clone()))).await {
            Some(r) => r,
            None => kind("hang"),
        };
        let stop = r["k"] == "hang";
        tr.push(ev(&op, r));
        if stop {
            break;
        }
    }
    o.out.put(tr);
    virtual_clock(false);
}
fn gen_op(r: &mut Rng) -> Value {
    let cl = *r.pick(&["A", "B", "k1", "k2", "zz", "Ünï code"]);
    let sc = *r.pick(&[&[][..], &["read"][..], &["read", "write"][..], &["admin"][..]]);
    let red = *r.pick(&["http://x/cb", "http://y/cb", "http://x/cb/"]);
    let pkv = *r.pick(&["none", "none", "v1", "v1", "v2", "H:v1", "H:v1", "H:v2", "H:H:v1"]);
    let nm = |k: char, r: &mut Rng| format!("{k}{}", 1 + r.below(6));
    match r.below(20) {
        0 => json!({"e":"register","id":*r.pick(&["", "A", "B"]),"secret":*r.pick(&["none","sec"]),"redirects":[red, "http://x/cb"],"rtypes":*r.pick(&[&["code"][..], &["token"][..], &[][..]]),"scopes":sc}),
        1 => json!({"e":"getclient","id":cl}),
        2 => json!({"e":"authorize","id":cl,"redirect":red,"rtype":*r.pick(&["code","token"]),"scopes":sc}),
        3..=6 => json!({"e":"code","id":cl,"user":*r.pick(&["u","w"]),"redirect":red,"scopes":sc,"ch":pkv,"m":*r.pick(&["none","plain","S256","S256","S512","s256"])}),
        7..=10 => {
            let mut c = nm('c', r);
            if r.chance(1, 12) {
                c = nm('r', r);
            }
            json!({"e":"exchange","grant": *r.pick(&["authorization_code","authorization_code","authorization_code","authorization_code","authorization_code","authorization_code","refresh_token","password","client_credentials"]),
                "code":c,"id":*r.pick(&[cl, "A", "A", "none"]),"redirect":*r.pick(&[red, "http://x/cb", "http://x/cb", "none"]),"v":*r.pick(&["v1","v1","v2","none","H:v1"])})
        }
        11 => json!({"e":"token","id":cl,"user":"u","scopes":sc}),
        12..=14 => json!({"e":"refresh","r0": if r.chance(1,10) { nm('a', r) } else { nm('r', r) }}),
        15 => {
            let k = *r.pick(&['a', 'r', 'c']);
            json!({"e":"revoke","x":nm(k, r)})
        }
        16..=18 => json!({"e":"validate","a0": if r.chance(1,10) { nm('r', r) } else { nm('a', r) }}),
        _ => json!({"e":"advance","d":*r.pick(&[1, 599, 600, 601, 3599, 3600, 3601])}),
    }
}
fn gen_code_flow(r: &mut Rng) -> Vec<Value> {
    // a likely-successful grant, so that histories have tokens to work with
    let n = r.below(3);
    let (ch, m, v) = *r.pick(&[("none", "none", "none"), ("H:v1", "S256", "v1"), ("v1", "plain", "v1"), ("v1", "none", "v1")]);
    vec![
        json!({"e":"code","id":"A","user":"u","redirect":"http://x/cb","scopes":["read"],"ch":ch,"m":m}),
        json!({"e":"exchange","grant":"authorization_code","code":format!("c{}", n + 1),"id":"A","redirect":"http://x/cb","v":v}),
    ]
}
fn gen_mw(r: &mut Rng, depth: usize) -> Value {
    let sc = *r.pick(&[&[][..], &["read"][..], &["read", "write"][..], &["admin", "read"][..]]);
    match r.below(if depth == 0 { 4 } else { 8 }) {
        0 | 1 => json!({"t":"bearer","req":r.chance(1,2)}),
        2 => json!({"t":"cc"}),
        3 => json!({"t":"stub","ok":r.chance(1,2),"scopes":sc,"id":*r.pick(&["p","q","r"]),"code":*r.pick(&[-32001,-32603])}),
        4 | 5 => json!({"t":"scope","all":r.chance(1,2),"scopes":sc,"inner":gen_mw(r, depth - 1)}),
        _ => {
            let n = r.below(4);
            json!({"t":"comp","any":r.chance(1,2),"list":(0..n).map(|_| gen_mw(r, depth - 1)).collect::<Vec<_>>()})
        }
    }
}
pub fn run(o: &mut Opts) {
    let rt = plain_rt();
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => rt.block_on(async {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc[0].clone(), sc[1..].to_vec()).await;
            }
        }),
        "rand" => rt.block_on(async {
            for _ in 0..o.n {
                let n = 8 + r.below(40);
                let mut ops = vec![];
                while ops.len() < n {
                    if r.chance(1, 8) {
                        ops.append(&mut gen_code_flow(&mut r));
                    } else {
                        ops.push(gen_op(&mut r));
                    }
                }
                play(o, cfg(40), ops).await;
            }
        }),
        // very many tokens and codes at once
        "crowd" => rt.block_on(async {
            for _ in 0..o.n {
                let k = 70 + r.below(60);
                let mut ops: Vec<Value> = vec![json!({"e":"register","id":"A","secret":"sec","redirects":["http://x/cb"],"rtypes":["code"],"scopes":["read"]})];
                let codes = r.chance(1, 2);
                for n in 0..k {
                    ops.push(if codes {
                        json!({"e":"code","id":"A","user":"u","redirect":"http://x/cb","scopes":["read"],"ch":"none","m":"none"})
                    } else {
                        json!({"e":"token","id":"A","user":format!("u{n}"),"scopes":["read"]})
                    });
                }
                for _ in 0..14 {
                    let n = *r.pick(&[1, 2, 32, 63, 64, 65, k / 2, k - 1, k]);
                    ops.push(match r.below(5) {
                        0 | 1 if codes => json!({"e":"exchange","grant":"authorization_code","code":format!("c{n}"),"id":"A","redirect":"http://x/cb","v":"none"}),
                        0 => json!({"e":"refresh","r0":format!("r{n}")}),
                        1 => json!({"e":"revoke","x":format!("a{n}")}),
                        2 => json!({"e":"validate","a0":"a1"}),
                        _ => json!({"e":"validate","a0":format!("a{}", if codes { 1 + r.below(6) } else { n })}),
                    });
                }
                play(o, cfg(160), ops).await;
            }
        }),
        "randauth" => rt.block_on(async {
            for _ in 0..o.n {
                let mut ops = vec![
                    json!({"e":"register","id":"A","secret":"sec","redirects":[],"rtypes":[],"scopes":["read","admin"]}),
                    json!({"e":"token","id":"C","user":"u","scopes":["read","write"]}),
                ];
                for _ in 0..30 {
                    if r.chance(1, 4) {
                        ops.push(gen_op(&mut r));
                    } else {
                        let cred = json!({"scheme":*r.pick(&["absent","bearer","bearer","bearer","none","oauth2","Custom"]),
                            "token":*r.pick(&["none","a1","a1","a2","a3","r1","junk"]),"cid":*r.pick(&["none","A","A","k1","zz"]),"csec":*r.pick(&["none","sec","sec","bad","gen:k1"])});
                        ops.push(json!({"e":"auth","mw":gen_mw(&mut r, 3),"cred":cred}));
                    }
                }
                play(o, cfg(40), ops).await;
            }
        }),
        // concurrent calls, every tokio operation a preemption point, all schedules up to a cap
        "conc" => {
            let ex = |v: &str| json!({"e":"exchange","grant":"authorization_code","code":"c1","id":"A","redirect":"x","v":v});
            let sets: Vec<Vec<Vec<Value>>> = {
                let refresh = || json!({"e":"refresh","r0":"r1"});
                let reva = || json!({"e":"revoke","x":"a1"});
                let revr = || json!({"e":"revoke","x":"r1"});
                let val = || json!({"e":"validate","a0":"a1"});
                let tok = || json!({"e":"token","id":"B","user":"w","scopes":[]});
                let cod = || json!({"e":"code","id":"A","user":"u","redirect":"x","scopes":[],"ch":"none","m":"none"});
                vec![
                    vec![vec![refresh()], vec![refresh()]],
                    vec![vec![refresh()], vec![refresh()], vec![refresh()]],
                    vec![vec![refresh(), refresh()], vec![refresh(), val()]],
                    vec![vec![refresh()], vec![reva(), val()]],
                    vec![vec![refresh()], vec![revr(), val()]],
                    vec![vec![revr()], vec![reva(), refresh()]],
                    vec![vec![refresh()], vec![tok()]],
                    vec![vec![revr()], vec![tok()], vec![val()]],
                    vec![vec![ex("v1")], vec![ex("v1")]],
                    vec![vec![ex("v1")], vec![ex("v1")], vec![cod()]],
                    vec![vec![ex("v1")], vec![ex("v2")]],
                    vec![vec![ex("v1")], vec![refresh()], vec![revr()]],
                    vec![vec![refresh(), val()], vec![val(), val()]],
                    vec![vec![ex("v1"), val()], vec![revr(), tok()]],
                ]
            };
            let cap = o.n;
            let seed = o.seed;
            for (si, set) in sets.iter().enumerate() {
                schedules(cap, seed + si as u64, |choose| {
                    rt.block_on(async {
                        virtual_clock(true);
                        let sut = Sut::new();
                        let c = cfg(12);
                        let mut tr = vec![c];
                        for op in [
                            json!({"e":"token","id":"A","user":"u","scopes":["read"]}),
                            json!({"e":"code","id":"A","user":"u","redirect":"x","scopes":["write"],"ch":"H:v1","m":"S256"}),
                        ] {
                            let x = sut.clone().exec(op.clone()).await;
                            tr.push(ev(&op, x));
                        }
                        let procs = set
                            .iter()
                            .map(|ops| {
                                let s = sut.clone();
                                let mk: Box<dyn FnMut(&Value) -> Fut> = Box::new(move |op| Box::pin(guard_async(s.clone().exec(op.clone()))));
                                (ops.clone(), mk)
                            })
                            .collect();
                        let done = Conc { tr: &mut tr, choose }.run(procs).await;
                        if done {
                            for op in ["a1", "a2", "a3", "a4"].map(|a| json!({"e":"validate","a0":a})) {
                                let x = sut.clone().exec(op.clone()).await;
                                tr.push(ev(&op, x));
                            }
                            for op in [json!({"e":"refresh","r0":"r1"}), json!({"e":"refresh","r0":"r2"})] {
                                let x = sut.clone().exec(op.clone()).await;
                                tr.push(ev(&op, x));
                            }
                        }
                        o.out.put(tr);
                        virtual_clock(false);
                    });
                });
            }
        }
        f => panic!("family {f}"),
    }
}
