//! vharness <component> <family> --seed N --n N --out FILE [--scripts FILE]
//! Runs the real pmcp code and records traces for TLC.
mod authc;
mod batch;
mod chain;
mod client;
mod codec;
mod complete;
mod coalesce;
mod core;
mod ctx;
mod decl;
mod e2e;
mod errs;
mod eventlog;
mod fast;
mod http;
mod httpc;
mod httpl;
mod managers;
mod oauth;
mod offer;
mod proto;
mod recovery;
mod server;
mod session;
mod ws;
mod wsc;
mod sse;
mod stdio;
mod uri;
mod watch;
use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "stdio-child" {
        return stdio::child(&a[2]);
    }
    let get = |k: &str| a.iter().position(|x| x == k).map(|p| a[p + 1].clone());
    let scripts = get("--scripts")
        .map(|f| {
            std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).expect("script")).collect()
        })
        .unwrap_or_default();
    let mut o = Opts {
        comp: a[1].clone(),
        fam: a[2].clone(),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        n: get("--n").and_then(|s| s.parse().ok()).unwrap_or(100),
        scripts,
        out: Out::create(&get("--out").expect("--out")),
    };
    match o.comp.as_str() {
        "batch" => batch::run(&mut o),
        "cancel" | "subs" | "roots" | "elicit" => managers::run(&mut o),
        "chain" => chain::run(&mut o),
        "fast" => fast::run(&mut o),
        "ctx" => ctx::run(&mut o),
        "complete" => complete::run(&mut o),
        "e2e" => e2e::run(&mut o),
        "errs" => errs::run(&mut o),
        "decl" => decl::run(&mut o),
        "codec" => codec::run(&mut o),
        "client" => client::run(&mut o),
        "coalesce" => coalesce::run(&mut o),
        "eventlog" => eventlog::run(&mut o),
        "http" => http::run(&mut o),
        "httpc" => httpc::run(&mut o),
        "oauth" => oauth::run(&mut o),
        "offer" => offer::run(&mut o),
        "proto" => proto::run(&mut o),
        "reconnect" | "recovery" => recovery::run(&mut o),
        "server" => server::run(&mut o),
        "ws" => ws::run(&mut o),
        "sse" => sse::run(&mut o),
        "stdio" => stdio::run(&mut o),
        "uri" => uri::run(&mut o),
        "watch" => watch::run(&mut o),
        "wsc" => wsc::run(&mut o),
        "httpl" => httpl::run(&mut o),
        "authc" => authc::run(&mut o),
        "session" => session::run(&mut o),
        c => panic!("unknown component {c}"),
    }
    println!("{{\"traces\":{},\"events\":{}}}", o.out.traces, o.out.events);
}
