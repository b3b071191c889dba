//! Argument completion (P35). "@" is the root of the tree, TAB a character outside ASCII.
use crate::core::*;
use pmcp::types::completable::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

fn real(s: &str) -> String {
    s.replace('\t', "é")
}
fn name(s: &str) -> String {
    s.replace('é', "\t")
}
fn ask(p: &dyn CompletionProviderTrait, text: String) -> Vec<CompletionItem> {
    let q = CompletionRequest { argument: "arg".into(), partial: text, context: HashMap::new() };
    let a = plain_rt().block_on(p.complete(q)).unwrap();
    assert!(!a.has_more && a.continuation_token.is_none(), "incomplete");
    a.completions
}
fn below(root: &Path, at: &Value) -> PathBuf {
    at.as_array().unwrap().iter().fold(root.to_path_buf(), |q, n| q.join(real(n.as_str().unwrap())))
}
pub fn play(o: &mut Opts, c: Value, ops: &[Value], nth: usize) {
    let root = std::env::temp_dir().join(format!("vh-complete-{}-{nth}", std::process::id()));
    std::fs::create_dir(&root).unwrap();
    // never to be offered: its name is not text
    std::fs::write(root.join(std::ffi::OsStr::from_bytes(b"d\xff.rs")), "").unwrap();
    let at0 = root.to_str().unwrap().to_string();
    let mut fixed = StaticCompletionProvider::new(vec![]);
    let mut files = FileCompletionProvider::new();
    let mut tr = vec![c];
    for op in ops {
        let r = guard(|| match s(op, "e") {
            "items" => {
                let l = op["items"].as_array().unwrap();
                let plain: Vec<String> = l.iter().map(|y| real(s(y, "v"))).collect();
                fixed = if l.iter().all(|y| y["l"].as_array().unwrap().is_empty()) {
                    StaticCompletionProvider::from_strings(plain)
                } else {
                    StaticCompletionProvider::new(
                        l.iter()
                            .map(|y| CompletionItem {
                                value: real(s(y, "v")),
                                label: y["l"][0].as_str().map(real),
                                description: Some(format!("about {}", s(y, "v"))),
                                icon: None,
                                metadata: HashMap::from([("m".to_string(), y["v"].clone())]),
                            })
                            .collect(),
                    )
                };
                kind("ok")
            }
            "pick" => {
                let l = ask(&fixed, real(s(op, "text")));
                let whole = |y: &CompletionItem| {
                    y.icon.is_none()
                        && (y.description.is_none() && y.metadata.is_empty()
                            || y.description == Some(format!("about {}", name(&y.value))) && y.metadata.len() == 1 && y.metadata["m"] == name(&y.value))
                };
                if !l.iter().all(whole) {
                    return kind("changed");
                }
                json!({"k":"list","list":l.iter().map(|y| json!({"v":name(&y.value),"l":y.label.iter().map(|x| name(x)).collect::<Vec<_>>()})).collect::<Vec<_>>()})
            }
            "put" => {
                let q = below(&root, &op["at"]).join(real(s(op, "n")));
                if b(op, "dir") {
                    std::fs::create_dir(q).unwrap();
                } else {
                    std::fs::write(q, "x").unwrap();
                }
                kind("ok")
            }
            "drop" => {
                let q = below(&root, &op["at"]).join(real(s(op, "n")));
                assert!(q.starts_with(&root));
                if q.is_dir() {
                    std::fs::remove_dir_all(q).unwrap();
                } else {
                    std::fs::remove_file(q).unwrap();
                }
                kind("ok")
            }
            "setup" => {
                let mut f = FileCompletionProvider::new();
                if let Some(x) = op["base"].as_array().unwrap().first() {
                    f = f.with_base_dir(below(&root, x));
                }
                if let Some(x) = op["exts"].as_array().unwrap().first() {
                    f = f.with_extensions(x.as_array().unwrap().iter().map(|e| real(e.as_str().unwrap())).collect());
                }
                files = f;
                kind("ok")
            }
            "find" => {
                let here = std::env::current_dir().unwrap();
                std::env::set_current_dir(&root).unwrap();
                let t = real(s(op, "text"));
                let t = if t.starts_with("@/") { t.replacen('@', &at0, 1) } else { t };
                let l = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(&files, t.clone())));
                std::env::set_current_dir(here).unwrap();
                let abs = t.starts_with('/');
                let l: Vec<Value> = l
                    .unwrap()
                    .iter()
                    .map(|y| {
                        let v = if abs { y.value.replacen(&at0, "@", 1) } else { y.value.clone() };
                        json!({"v":name(&v),"l":y.label.iter().map(|x| name(x)).collect::<Vec<_>>(),"dir":y.description.as_deref() == Some("Directory")})
                    })
                    .collect();
                json!({"k":"list","list":l})
            }
            e => panic!("op {e}"),
        });
        tr.push(ev(op, r));
    }
    std::fs::remove_dir_all(&root).unwrap();
    o.out.put(tr);
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for (n, sc) in std::mem::take(&mut o.scripts).into_iter().enumerate() {
                play(o, sc[0].clone(), &sc[1..], n);
            }
        }
        "rand" => {
            const NAMES: &[&str] = &["a", "ab", "A", "a.b", "a.rs", "b.rs", ".rs", ".a.rs", "b.RS", "a.tar.rs", "-x", "b", "\tz", "a\t", "a.", "x.md", "0"];
            for nth in 0..o.n {
                let mut ops = vec![];
                let mut tree: Vec<(Vec<String>, String, bool)> = vec![];
                for _ in 0..30 {
                    let dirs: Vec<Vec<String>> = std::iter::once(vec![])
                        .chain(tree.iter().filter(|y| y.2).map(|y| [y.0.clone(), vec![y.1.clone()]].concat()))
                        .collect();
                    match r.below(10) {
                        0..=2 => {
                            let (at, n, d) = (r.pick(&dirs).clone(), r.pick(NAMES).to_string(), r.chance(1, 3));
                            if at.len() > 3 || tree.iter().any(|y| y.0 == at && y.1 == n) {
                                continue;
                            }
                            ops.push(json!({"e":"put","at":at,"n":n,"dir":d}));
                            tree.push((at, n, d));
                        }
                        3 if !tree.is_empty() && r.chance(1, 3) => {
                            let (at, n, _) = r.pick(&tree).clone();
                            let all = [at.clone(), vec![n.clone()]].concat();
                            tree.retain(|y| !(y.0 == at && y.1 == n) && !y.0.starts_with(&all));
                            ops.push(json!({"e":"drop","at":at,"n":n}));
                        }
                        4 => {
                            let base = if r.chance(1, 2) { vec![] } else { vec![r.pick(&dirs).clone()] };
                            let exts: Vec<Vec<&str>> = if r.chance(1, 2) { vec![] } else { vec![(0..r.below(3)).map(|_| *r.pick(&["rs", "md", "b", "RS", "a", "."])).collect()] };
                            ops.push(json!({"e":"setup","base":base,"exts":exts}));
                        }
                        5 => {
                            let l: Vec<Value> = (0..r.below(6))
                                .map(|_| {
                                    let l: Vec<&str> = if r.chance(1, 2) { vec![] } else { vec![*r.pick(NAMES)] };
                                    json!({"v":r.pick(NAMES),"l":l})
                                })
                                .collect();
                            ops.push(json!({"e":"items","items":l}));
                        }
                        6 => ops.push(json!({"e":"pick","text":r.pick(&["", "a", "a.", "ab", "A", "\t", ".", "a.rs", "a.rsx", " a"])})),
                        _ => {
                            let mut t = String::from(*r.pick(&["", "", "", "@/", "./", "@//"]));
                            let d = r.pick(&dirs).clone();
                            for x in d {
                                t += &x;
                                t += *r.pick(&["/", "/", "/", "//", "/./", "/../"]);
                            }
                            t += *r.pick(&["", "", "a", "a.", "ab", ".", "..", "A", "\t", "a.rs", "b", "zz", "zz/", "-", "a/"]);
                            ops.push(json!({"e":"find","text":t}));
                        }
                    }
                }
                // a directory that was dropped is no base any more, and what leads out of the tree is not asked
                let mut dirs: Vec<Vec<String>> = vec![vec![]];
                let mut base: Vec<String> = vec![];
                let path = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
                ops.retain(|op| match s(op, "e") {
                    "put" => {
                        if b(op, "dir") {
                            dirs.push([path(&op["at"]), vec![s(op, "n").to_string()]].concat());
                        }
                        true
                    }
                    "drop" => {
                        let all = [path(&op["at"]), vec![s(op, "n").to_string()]].concat();
                        let keep = !base.starts_with(&all);
                        if keep {
                            dirs.retain(|d| !d.starts_with(&all));
                        }
                        keep
                    }
                    "setup" => {
                        let x = op["base"].as_array().unwrap().first().map_or(vec![], path);
                        let keep = dirs.contains(&x);
                        if keep {
                            base = x;
                        }
                        keep
                    }
                    "find" => {
                        let t = s(op, "text");
                        let (mut at, way) = match t.strip_prefix("@/") {
                            Some(w) => (vec![], w),
                            None => (base.clone(), t),
                        };
                        for x in way[..way.rfind('/').map_or(0, |n| n + 1)].split('/') {
                            match x {
                                "" | "." => {}
                                ".." => {
                                    if at.pop().is_none() {
                                        return false;
                                    }
                                }
                                x => {
                                    at.push(x.to_string());
                                    if !dirs.contains(&at) {
                                        return true;
                                    }
                                }
                            }
                        }
                        true
                    }
                    _ => true,
                });
                // what was kept may now put something twice, or into what is not there
                let mut there: Vec<(Vec<String>, bool)> = vec![(vec![], true)];
                ops.retain(|op| match s(op, "e") {
                    "put" => {
                        let at = path(&op["at"]);
                        let all = [at.clone(), vec![s(op, "n").to_string()]].concat();
                        let keep = there.contains(&(at, true)) && !there.iter().any(|y| y.0 == all);
                        if keep {
                            there.push((all, b(op, "dir")));
                        }
                        keep
                    }
                    "drop" => {
                        let all = [path(&op["at"]), vec![s(op, "n").to_string()]].concat();
                        let keep = there.iter().any(|y| y.0 == all);
                        there.retain(|y| !y.0.starts_with(&all));
                        keep
                    }
                    _ => true,
                });
                play(o, json!({"e":"init"}), &ops, nth);
            }
        }
        f => panic!("family {f}"),
    }
}
