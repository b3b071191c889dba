//! URI templates (P30). TAB, LF and CR stand for characters outside ASCII.
use crate::core::*;
use pmcp::shared::UriTemplate;
use serde_json::{json, Value};
use std::collections::HashMap;

const ODD: [(char, char); 3] = [('\t', 'é'), ('\n', '→'), ('\r', '😀')];
fn real(s: &str) -> String {
    s.chars().map(|c| ODD.iter().find(|x| x.0 == c).map_or(c, |x| x.1)).collect()
}
fn name(s: &str) -> String {
    s.chars().map(|c| ODD.iter().find(|x| x.1 == c).map_or(c, |x| x.0)).collect()
}
fn matched(t: &UriTemplate, u: &str) -> Value {
    match t.match_uri(u) {
        None => json!({"k":"none","v":[]}),
        Some(m) => {
            let mut v: Vec<_> = m.into_iter().collect();
            v.sort();
            json!({"k":"some","v":v.iter().map(|(n, x)| json!({"n":name(n),"x":name(x)})).collect::<Vec<_>>()})
        }
    }
}
pub fn play(o: &mut Opts, c: Value, ops: &[Value]) {
    let mut t = UriTemplate::new("").unwrap();
    let mut tr = vec![c];
    for op in ops {
        let r = guard(|| match s(op, "e") {
            "new" => {
                let text = real(s(op, "t"));
                match UriTemplate::new(text.clone()) {
                    Err(_) => json!({"k":"err","names":[]}),
                    // the written form is the template
                    Ok(x) => match serde_json::from_value::<UriTemplate>(serde_json::to_value(&x).unwrap()) {
                        Ok(y) if x.to_string() == text && y == x => {
                            t = y;
                            json!({"k":"ok","names":t.variables()})
                        }
                        _ => json!({"k":"changed","names":[]}),
                    },
                }
            }
            "expand" => {
                let v: Vec<_> = op["v"].as_array().unwrap().iter().map(|p| (s(p, "n").to_string(), real(s(p, "x")))).collect();
                let u = t.expand(&v).unwrap();
                let m: HashMap<String, String> = v.into_iter().collect();
                if t.expand_with_map(&m).unwrap() != u {
                    return json!({"k":"differ"});
                }
                let m = matched(&t, &u);
                json!({"k":"uri","u":name(&u),"m":m})
            }
            "match" => json!({"k":"match","m":matched(&t, &real(s(op, "u")))}),
            e => panic!("op {e}"),
        });
        tr.push(ev(op, r));
    }
    o.out.put(tr);
}
const CH: &[&str] = &["a", "Z", "7", " ", "/", ",", ".", "-", "_", "~", "\t", "\n", "\r", "?", "&", "=", "#", ";", "+", "'", "(", ")", "*", "!", "@", ":", "$", "[", "]", "\"", "<", ">", "\\", "^", "`", "{", "|", "}", "%"];
fn value(r: &mut Rng, plain: bool) -> String {
    let n = r.below(6);
    (0..n)
        .map(|_| match r.below(9) {
            0..=2 => *r.pick(CH),
            3 if !plain => *r.pick(&["%20", "%2F", "%e2%86%92", "%zz", "%"]),
            _ => *r.pick(&["a", "b", "x", "1"]),
        })
        .filter(|c| !(plain && matches!(*c, "%" | "\r")))
        .collect()
}
fn template(r: &mut Rng) -> (String, bool) {
    let mut cut = false;
    let mut t = String::new();
    for _ in 0..r.below(5) {
        if r.chance(1, 3) {
            t += r.pick(&["/", "x", "/users/", "?k=1", ":", "-", "file://", "%20", "a.b", "(~)", "[*]", "+1", "$"]);
            continue;
        }
        let op = *r.pick(&["", "", "+", "#", ".", "/", ";", "?", "&"]);
        let k = 1 + r.below(3);
        let vs: Vec<String> = (0..k)
            .map(|_| {
                let n = *r.pick(&["a", "b", "c", "long_Name1", "_x"]);
                match r.below(7) {
                    0 => {
                        cut = true;
                        format!("{n}:{}", r.pick(&["1", "2", "3", "10", "999"]))
                    }
                    1 => format!("{n}*"),
                    _ => n.to_string(),
                }
            })
            .collect();
        t += &format!("{{{op}{}}}", vs.join(if r.chance(1, 9) { " , " } else { "," }));
    }
    if r.chance(1, 8) {
        // something in it goes wrong
        let at = r.below(t.len() + 1);
        match r.below(3) {
            0 => t.insert_str(at, r.pick(&["{", "}", "{}", ":", "*", ",", " ", "-", "{a", "0"])),
            1 if at < t.len() => {
                t.remove(at);
            }
            _ => t.truncate(at),
        }
    }
    (t, cut)
}
pub fn run(o: &mut Opts) {
    let mut r = Rng::new(o.seed);
    match o.fam.as_str() {
        "script" => {
            for sc in std::mem::take(&mut o.scripts) {
                play(o, sc[0].clone(), &sc[1..]);
            }
        }
        "rand" => {
            for _ in 0..o.n {
                let mut ops = vec![];
                for _ in 0..3 {
                    let (t, cut) = template(&mut r);
                    ops.push(json!({"e":"new","t":t}));
                    for _ in 0..4 {
                        let mut v = vec![];
                        for n in ["a", "b", "c", "long_Name1", "_x", "zz", "a"] {
                            if r.chance(3, 4) {
                                v.push(json!({"n":n,"x":value(&mut r, cut)}));
                            }
                        }
                        ops.push(json!({"e":"expand","v":v}));
                    }
                    for _ in 0..3 {
                        let u: String = (0..r.below(8)).map(|_| *r.pick(&["/", "x", "a", "b", "v", "?a=", "&b=", "#", ".", ";a=", "&a=", ",", "%20", "%zz", "\t", "?k=1", "%FF", "{a}", "a=1"])).collect();
                        ops.push(json!({"e":"match","u":u}));
                    }
                }
                play(o, json!({"e":"init"}), &ops);
            }
        }
        f => panic!("family {f}"),
    }
}
