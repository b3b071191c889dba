//! The resource watcher on a scratch directory (P25): real files, virtual time.
use crate::core::*;
use pmcp::server::resource_watcher::*;
use pmcp::types::protocol::{ResourceInfo, ServerNotification};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;
use tokio::sync::mpsc;

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("vwatch-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(d.join("sub/deep")).unwrap();
        Dir(std::fs::canonicalize(d).unwrap())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Sut {
    dir: Dir,
    w: Option<ResourceWatcher>,
    rx: mpsc::Receiver<ServerNotification>,
    on: bool,
    ms: u64,
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
impl Sut {
    fn new(c: &Value, slow: bool) -> Sut {
        let dir = Dir::new();
        for f in strings(&c["files"]) {
            std::fs::write(dir.0.join(f), "0").unwrap();
        }
        let (tx, rx) = mpsc::channel(i(c, "cap") as usize);
        let conf = WatchConfig {
            debounce: Duration::from_millis(i(c, "wait") as u64),
            patterns: strings(&c["pats"]),
            ignore_patterns: strings(&c["ign"]),
            max_resources: i(c, "max") as usize,
        };
        Sut { w: Some(ResourceWatcher::new(&dir.0, conf, tx)), dir, rx, on: false, ms: if slow { 300 } else { 12 } }
    }
    fn uri(&self, f: &str) -> String {
        format!("file://{}/{}", self.dir.0.display(), f)
    }
    fn path(&self, u: &str) -> String {
        u.strip_prefix(&self.uri("")).unwrap_or(u).to_string()
    }
    /// The system's watcher thread passes on what has happened.
    async fn deliver(&self, times: u64) {
        if self.on {
            std::thread::sleep(Duration::from_millis(self.ms * times));
        }
        settle().await;
    }
    fn change(&self, what: &str, f: &str, g: &str) {
        let p = self.dir.0.join(f);
        match what {
            "write" => std::fs::write(p, "1").unwrap(),
            _ if !p.exists() => {}
            "read" => drop(std::fs::read(p).unwrap()),
            "rm" => std::fs::remove_file(p).unwrap(),
            "touch" => std::fs::File::options().write(true).open(p).unwrap().set_modified(std::time::SystemTime::now()).unwrap(),
            "mv" => std::fs::rename(p, self.dir.0.join(g)).unwrap(),
            w => panic!("change {w}"),
        }
    }
    async fn told(&mut self) -> Vec<Value> {
        let mut all = vec![];
        loop {
            settle().await;
            match self.rx.try_recv() {
                Ok(ServerNotification::ResourceUpdated(p)) => all.push(json!(self.path(&p.uri))),
                Ok(x) => all.push(json!(format!("{x:?}"))),
                Err(_) => return all,
            }
        }
    }
    fn info(&self, op: &Value) -> (String, ResourceInfo) {
        let u = self.uri(s(op, "f"));
        (u.clone(), ResourceInfo { uri: u, name: s(op, "d").into(), description: None, mime_type: None })
    }
    async fn exec(&mut self, op: &Value) -> Value {
        let Some(w) = self.w.as_mut() else { return kind("gone") };
        match s(op, "e") {
            "start" => {
                if w.start().await.is_err() {
                    return kind("err");
                }
                self.on = true;
                if s(op, "f") != "" {
                    self.change("write", s(op, "f"), "");
                    self.deliver(1).await;
                }
            }
            "stop" => {
                w.stop().await;
                self.on = false;
                settle().await;
            }
            "drop" => {
                self.w = None;
                self.on = false;
                for _ in 0..4 {
                    advance(100, 100).await;
                    while self.rx.try_recv().is_ok() {}
                }
                return kind(match self.rx.try_recv() {
                    Err(mpsc::error::TryRecvError::Disconnected) => "over",
                    _ => "open",
                });
            }
            "add" => {
                let (u, x) = self.info(op);
                if self.w.as_ref().unwrap().add_resource(u, x).await.is_err() {
                    return kind("err");
                }
            }
            "del" => {
                let u = self.uri(s(op, "f"));
                if self.w.as_ref().unwrap().remove_resource(&u).await.is_err() {
                    return kind("err");
                }
            }
            "list" => {
                let mut v: Vec<_> = w.get_resources().await.into_iter().map(|x| (x.uri, x.name)).collect();
                v.sort();
                return json!({"k":"list","all":v.iter().map(|(u, d)| json!({"f":self.path(u),"d":d})).collect::<Vec<_>>()});
            }
            "chg" => {
                self.change(s(op, "what"), s(op, "f"), op["g"].as_str().unwrap_or(""));
                self.deliver(1).await;
            }
            "tick" => advance(100, 100).await,
            "busy" => {
                let flood = op["flood"] == json!(true);
                for n in 0..if flood { 1500 } else { 0 } {
                    self.change("write", &format!("{n}.flood"), "");
                }
                for f in strings(&op["fs"]) {
                    self.change("write", &f, "");
                }
                self.deliver(if flood { 40 } else { 1 }).await;
                let wait = self.ticks();
                advance(wait, 100).await;
                let w = self.w.as_ref().unwrap();
                let u = self.uri("nothing");
                if bounded(200, w.remove_resource(&u)).await.is_none() || bounded(200, w.get_resources()).await.is_none() {
                    self.w = None;
                    return kind("blocked");
                }
                let mut all = self.told().await;
                for _ in 0..wait / 100 {
                    advance(100, 100).await;
                    all.extend(self.told().await);
                }
                return json!({"k":"ok","told":all});
            }
            e => panic!("op {e}"),
        }
        let t = self.told().await;
        json!({"k":"ok","told":t})
    }
    fn ticks(&self) -> i64 {
        // longer than any wait in use
        1200
    }
}
fn play(sc: &[Value], slow: bool) -> Vec<Value> {
    paused_rt().block_on(async {
        let mut x = Sut::new(&sc[0], slow);
        let mut tr = vec![sc[0].clone()];
        for op in &sc[1..] {
            let r = x.exec(op).await;
            tr.push(ev(op, r));
        }
        tr
    })
}
const FS: &[&str] = &["a.txt", "b.md", "sub/a.txt", "sub/b.md", "sub/t.log", "sub/deep/é x.rs", "t", "sub/.hidden"];
fn random(r: &mut Rng) -> Vec<Value> {
    let pats: &[&[&str]] = &[&["**/*"], &["**/*"], &["*.txt", "sub/**"], &["**/*.md", "**/*.rs"], &["sub/*"], &["*"], &[], &["**/a*", "t"], &["**/?.??"], &["sub/**/*.rs"]];
    let ign: &[&[&str]] = &[&[], &["**/*.log"], &["sub/deep/**"], &["**/.*"], &["**/sub/**"], &["t", "a.*"]];
    let all = |r: &mut Rng, n: u64| FS.iter().filter(|_| r.chance(n, 4)).map(|f| json!(f)).collect::<Vec<_>>();
    let pick = |r: &mut Rng| json!(*r.pick(FS));
    let files = all(r, 2);
    let wait = *r.pick(&[0, 100, 200, 250, 500, 500]);
    let mut sc = vec![json!({"e":"init","pats":r.pick(pats),"ign":r.pick(ign),"max":*r.pick(&[0, 1, 3, 5, 100, 100]),"wait":wait,"cap":*r.pick(&[1, 2, 100]),"files":files})];
    for f in all(r, 3) {
        sc.push(json!({"e":"add","f":f,"d":"0"}));
    }
    let mut on = false;
    for k in 0..12 + r.below(25) {
        let op = match r.below(40) {
            _ if k == 0 => json!({"e":"start","f":if r.chance(1, 2) { json!("") } else { pick(r) }}),
            0 if on => json!({"e":"stop"}),
            0 | 1 if !on => json!({"e":"start","f":pick(r)}),
            1 | 2 => json!({"e":"add","f":pick(r),"d":*r.pick(&["0", "1", "é"])}),
            3 => json!({"e":"del","f":pick(r)}),
            4 => json!({"e":"list"}),
            5 if wait <= 500 => json!({"e":"busy","fs":all(r, 2),"flood":r.chance(1, 20)}),
            7..=20 => {
                let what = *r.pick(&["write", "write", "write", "rm", "touch", "mv", "read"]);
                json!({"e":"chg","what":what,"f":pick(r),"g":pick(r)})
            }
            _ => json!({"e":"tick"}),
        };
        match s(&op, "e") {
            "start" => on = true,
            "stop" => on = false,
            _ => {}
        }
        sc.push(op);
    }
    if r.chance(1, 2) {
        sc.push(json!({"e":"drop"}));
    }
    sc
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    let slow = o.fam == "slow";
    let scripts: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" | "slow" => std::mem::take(&mut o.scripts),
        _ => (0..o.n).map(|_| random(&mut r)).collect(),
    };
    // the histories are independent of one another
    let (next, done) = (AtomicUsize::new(0), Mutex::new(vec![None; scripts.len()]));
    std::thread::scope(|sc| {
        for _ in 0..if slow { 4 } else { 16 } {
            sc.spawn(|| loop {
                let n = next.fetch_add(1, SeqCst);
                let Some(x) = scripts.get(n) else { break };
                let tr = play(x, slow);
                done.lock().unwrap()[n] = Some(tr);
            });
        }
    });
    for tr in done.into_inner().unwrap() {
        o.out.put(tr.unwrap());
    }
}
