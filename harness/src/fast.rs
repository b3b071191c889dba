//! Accelerated utilities driver (spec/FastJson.tla).
use crate::core::*;
use pmcp::simd::{batch, compression, json as simd_json, serialization};
use pmcp::utils::{parse_json_batch, parse_json_fast, pretty_print_fast, serialize_json_fast};
use serde_json::{json, Map, Value};
use std::sync::{Arc, Mutex};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}
fn points(t: &str) -> Vec<u32> {
    t.chars().map(|c| c as u32).collect()
}
fn tree(v: &Value) -> Value {
    match v {
        Value::Null => json!(["z"]),
        Value::Bool(true) => json!(["t"]),
        Value::Bool(false) => json!(["f"]),
        Value::Number(n) => json!(["n", n.to_string()]),
        Value::String(t) => json!(["s", points(t)]),
        Value::Array(a) => json!(["a", a.iter().map(tree).collect::<Vec<_>>()]),
        Value::Object(o) => json!(["o", o.iter().map(|(k, v)| json!([points(k), tree(v)])).collect::<Vec<_>>()]),
    }
}
fn untree(t: &Value) -> Value {
    let text = |p: &Value| p.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect::<String>();
    match t[0].as_str().unwrap() {
        "t" => json!(true),
        "f" => json!(false),
        "n" => serde_json::from_str(t[1].as_str().unwrap()).unwrap(),
        "s" => json!(text(&t[1])),
        "a" => Value::Array(t[1].as_array().unwrap().iter().map(untree).collect()),
        "o" => Value::Object(t[1].as_array().unwrap().iter().map(|p| (text(&p[0]), untree(&p[1]))).collect::<Map<_, _>>()),
        _ => Value::Null,
    }
}
fn opt<E>(r: Result<Value, E>) -> Value {
    r.map_or(json!([]), |v| json!([tree(&v)]))
}
fn word(v: &Value) -> u32 {
    ((v[0].as_u64().unwrap() as u32) << 16) | v[1].as_u64().unwrap() as u32
}
fn exec(op: &Value) -> Value {
    let e = s(op, "e");
    let input = if op.get("b").is_some() {
        let fill = |k: &str| vec![i(op, "fill") as u8; i(op, k) as usize];
        [fill("pre"), bytes(&op["b"]), fill("post")].concat()
    } else {
        vec![]
    };
    // The functions need AVX2, which every machine this runs on has; the plain ones are used otherwise.
    let v = unsafe {
        match e {
            "utf8" => json!(simd_json::validate_utf8_simd(&input)),
            "ws" => json!(simd_json::find_whitespace_simd(&input)),
            "esc" => json!(simd_json::find_escapes_simd(&input)),
            "b64" => {
                let mut v = vec![];
                serialization::base64_encode_simd(&input, &mut v);
                json!(v)
            }
            "xor" => {
                let (mut v, m) = (input, bytes(&op["mask"]));
                serialization::xor_mask_simd(&mut v, [m[0], m[1], m[2], m[3]]);
                json!(v)
            }
            "rle" => {
                let mut v = vec![];
                compression::rle_encode_simd(&input, &mut v);
                json!(v)
            }
            "find" => json!(compression::find_pattern_simd(&input, &bytes(&op["needle"])).map_or(-1, |x| x as i64)),
            "copy" => {
                let mut v = vec![99; input.len() + 3];
                serialization::copy_simd(&input, &mut v);
                let rest = v.split_off(input.len());
                if rest == [99; 3] { json!(v) } else { json!([v, rest]) }
            }
            "lens" => {
                let l: Vec<u32> = op["lens"].as_array().unwrap().iter().map(word).collect();
                json!(batch::batch_validate_lengths(&l, word(&op["max"])))
            }
            "sums" => {
                let bufs: Vec<Vec<u8>> = op["bufs"].as_array().unwrap().iter().map(bytes).collect();
                json!(batch::batch_checksum_simd(&bufs.iter().map(|b| &b[..]).collect::<Vec<_>>()))
            }
            "parse" => opt(parse_json_fast::<Value>(&input)),
            "batch" => {
                let bs: Vec<Vec<u8>> = op["bs"].as_array().unwrap().iter().map(bytes).collect();
                json!(parse_json_batch::<Value>(&bs.iter().map(|b| &b[..]).collect::<Vec<_>>()).into_iter().map(opt).collect::<Vec<_>>())
            }
            "write" => match serialize_json_fast(&untree(&op["v"])) {
                Ok(v) => json!(v),
                Err(_) => return kind("err"),
            },
            "pretty" => match pretty_print_fast(&untree(&op["v"])) {
                Ok(v) => json!(v.into_bytes()),
                Err(_) => return kind("err"),
            },
            e => panic!("{e}"),
        }
    };
    json!({"k":"ok","v":v})
}

// ---------------------------------------------------------------- random inputs
fn rtext(r: &mut Rng) -> String {
    let cs = ["a", "b c", "é", "€", "😀", "\"", "\\", "\n", "\u{1}", "\u{7f}", " ", "{", "]", ":", ",", "/", "x"];
    (0..r.below(7)).map(|_| *r.pick(&cs)).collect()
}
fn rval(r: &mut Rng, deep: usize) -> Value {
    match r.below(if deep == 0 { 7 } else { 10 }) {
        0 => json!(null),
        1 => json!(r.chance(1, 2)),
        2 | 3 => json!(r.range(-99999, 99999)),
        4 => json!(*r.pick(&[0.5, -12.25, 3.125])),
        5 | 6 => json!(rtext(r)),
        7 | 8 => Value::Array((0..r.below(5)).map(|_| rval(r, deep - 1)).collect()),
        _ => Value::Object((0..r.below(5)).map(|_| (rtext(r), rval(r, deep - 1))).collect()),
    }
}
/// A JSON text with white space anywhere it may be and other forms of the characters.
fn spell(v: &Value, r: &mut Rng, ws: u64, out: &mut String) {
    let gap = |r: &mut Rng, out: &mut String| {
        while r.chance(ws, 10) {
            out.push_str(r.pick::<&str>(&[" ", " ", "\n", "\t", "\r", "  "]));
        }
    };
    let text = |t: &str, r: &mut Rng, out: &mut String| {
        out.push('"');
        for c in t.chars() {
            if c < ' ' || c == '"' || c == '\\' || r.chance(1, 6) {
                match c {
                    '"' | '\\' | '/' => {
                        out.push('\\');
                        out.push(c);
                    }
                    '\n' => out.push_str("\\n"),
                    c => {
                        for u in c.encode_utf16(&mut [0; 2]) {
                            out.push_str(&if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                        }
                    }
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    };
    gap(r, out);
    match v {
        Value::String(t) => text(t, r, out),
        Value::Array(a) => {
            out.push('[');
            for (n, x) in a.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                spell(x, r, ws, out);
            }
            gap(r, out);
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            for (n, (k, x)) in o.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                gap(r, out);
                text(k, r, out);
                gap(r, out);
                out.push(':');
                spell(x, r, ws, out);
            }
            gap(r, out);
            out.push('}');
        }
        v => out.push_str(&v.to_string()),
    }
    gap(r, out);
}
fn rjson(r: &mut Rng) -> Vec<u8> {
    let mut t = String::new();
    let v = rval(r, 3);
    let ws = *r.pick(&[0, 1, 3, 6]);
    spell(&v, r, ws, &mut t);
    let mut b = t.into_bytes();
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            let x = r.below(b.len() + 1);
            match r.below(3) {
                0 if x < b.len() => drop(b.remove(x)),
                1 if x < b.len() => b[x] = *r.pick(b" \",:[]{}\\1-.\xc3\xe2\xff\x80n"),
                _ => b.insert(x, *r.pick(b" \",:[]{}\\1-.\xc3\xe2\xff\x80n")),
            }
        }
    }
    b
}
fn rbytes(r: &mut Rng, of: &[u8], most: usize) -> Vec<u8> {
    (0..r.below(most)).map(|_| if r.chance(1, 5) { r.below(256) as u8 } else { *r.pick(of) }).collect()
}
fn random(r: &mut Rng) -> Value {
    let inp = |e: &str, b: Vec<u8>| json!({"e":e,"fill":120,"b":b,"pre":0,"post":0});
    match r.below(16) {
        0..=2 => inp("parse", rjson(r)),
        3 => json!({"e":"batch","bs":(0..r.below(5)).map(|_| rjson(r)).collect::<Vec<_>>()}),
        4 => json!({"e":"write","v":tree(&rval(r, 3))}),
        5 => json!({"e":"pretty","v":tree(&rval(r, 3))}),
        6..=7 => {
            let mut b: Vec<u8> = (0..r.below(30)).map(|_| *r.pick(&["abcdefg", "é", "€", "😀", "x", "\u{d7ff}"])).collect::<String>().into_bytes();
            for _ in 0..r.below(3) {
                let x = r.below(b.len() + 1);
                if x < b.len() && r.chance(1, 2) {
                    b.remove(x);
                } else {
                    b.insert(x, *r.pick(&[0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0x41, 0xff]));
                }
            }
            inp("utf8", b)
        }
        8 => inp("ws", rbytes(r, b" \t\n\rax", 150)),
        9 => inp("esc", rbytes(r, b"\\\"ax", 150)),
        10 => inp("b64", rbytes(r, b"a", 100)),
        11 => {
            let mut v = inp("xor", rbytes(r, b"a", 130));
            v["mask"] = json!((0..4).map(|_| r.below(256)).collect::<Vec<_>>());
            v
        }
        12 => {
            let mut b = vec![];
            for _ in 0..r.below(8) {
                b.extend(vec![r.below(3) as u8; if r.chance(1, 10) { r.below(600) } else { r.below(70) }]);
            }
            inp("rle", b)
        }
        13 => {
            let h = rbytes(r, b"ab", 150);
            let mut v = inp("find", h.clone());
            let (a, n) = (r.below(h.len() + 1), r.below(6));
            let mut nd: Vec<u8> = h.into_iter().skip(a).take(n).collect();
            if r.chance(1, 3) {
                nd.push(b'a');
            }
            v["needle"] = json!(nd);
            v
        }
        14 => {
            let near = [[0, 0], [0, 7], [0, 8], [0, 9], [32767, 65535], [32768, 0], [65535, 65535]];
            json!({"e":"lens","max":r.pick(&near),"lens":(0..r.below(40)).map(|_| *r.pick(&near)).collect::<Vec<_>>()})
        }
        _ => json!({"e":"sums","bufs":(0..r.below(4)).map(|_| rbytes(r, b"\xff\xfe", 200)).collect::<Vec<_>>()}),
    }
}

pub fn run(o: &mut Opts) {
    if !std::arch::is_x86_feature_detected!("avx2") {
        println!("no AVX2");
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::new(o.seed);
    let init = json!({"e":"init","k":"x"});
    let scs: Vec<Vec<Value>> = match o.fam.as_str() {
        "script" => std::mem::take(&mut o.scripts),
        "rand" => (0..o.n).map(|_| [vec![init.clone()], (0..20).map(|_| random(&mut r)).collect()].concat()).collect(),
        f => panic!("family {f}"),
    };
    // One thread does the work; should it not come back, what it was asked is the last thing recorded.
    let now: Arc<Mutex<(usize, Vec<Value>)>> = Default::default();
    let (tx, rx) = std::sync::mpsc::channel();
    let (n, scs2) = (now.clone(), scs.clone());
    std::thread::spawn(move || {
        for (x, sc) in scs2.into_iter().enumerate() {
            let mut tr = vec![sc[0].clone()];
            for op in &sc[1..] {
                *n.lock().unwrap() = (x, [tr.clone(), vec![ev(op, kind("hung"))]].concat());
                tr.push(ev(op, guard(|| exec(op))));
            }
            if tx.send(tr).is_err() {
                return;
            }
        }
    });
    for _ in 0..scs.len() {
        match rx.recv_timeout(std::time::Duration::from_secs(5)) {
            Ok(tr) => o.out.put(tr),
            Err(_) => {
                let tr = now.lock().unwrap().1.clone();
                return o.out.put(tr);
            }
        }
    }
}
