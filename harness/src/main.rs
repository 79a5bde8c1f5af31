#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c14;
mod c15;
mod c16;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
#[cfg(any(feature = "all", feature = "c25"))]
mod c25;
#[cfg(any(feature = "all", feature = "c26"))]
mod c26;
#[cfg(any(feature = "all", feature = "c26", feature = "c07"))]
mod fault;
#[cfg(any(feature = "all", feature = "c27"))]
mod c27;
#[cfg(any(feature = "all", feature = "c28"))]
mod c28;
mod codec;
mod elems;
mod gen;
mod graph;
mod kinds;
mod rw;
mod util;

use std::sync::Arc;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let check = a.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out").unwrap_or_else(|| "/tmp/gv-out".into());
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let workers = get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cpu: f64 = get("--cpu-limit").and_then(|s| s.parse().ok()).unwrap_or(200.0);
    let quiet: u64 = get("--quiet").and_then(|s| s.parse().ok()).unwrap_or(20);
    #[cfg(any(feature = "all", feature = "c22"))]
    if check == "CHILD22" {
        return c22::child(seed, get("--progress").as_deref() == Some("yes"), &get("--child-out").unwrap());
    }
    #[cfg(any(feature = "all", feature = "c20"))]
    if check == "REF" {
        return c20::serve();
    }
    install_panic_hook();
    let ctx = Arc::new(Ctx::new(&check, seed, thorough, out.into(), get("--only"), budget, workers, scale));
    if !cfg!(miri) {
        start_monitor(ctx.clone(), quiet, cpu);
    }
    match check.as_str() {
        #[cfg(any(feature = "all", feature = "c01"))]
        "C01" => c01::run(&ctx),
        #[cfg(any(feature = "all", feature = "c02"))]
        "C02" => c02::run(&ctx),
        #[cfg(any(feature = "all", feature = "c03"))]
        "C03" => c03::run(&ctx),
        #[cfg(any(feature = "all", feature = "c04"))]
        "C04" => c04::run(&ctx),
        #[cfg(any(feature = "all", feature = "c06"))]
        "C06" => c06::run(&ctx),
        #[cfg(any(feature = "all", feature = "c07"))]
        "C07" => c07::run(&ctx),
        #[cfg(any(feature = "all", feature = "c08"))]
        "C08" => c08::run(&ctx),
        #[cfg(any(feature = "all", feature = "c11"))]
        "C11" => rw::run_c11(&ctx),
        #[cfg(any(feature = "all", feature = "c12"))]
        "C12" => rw::run_c12(&ctx),
        #[cfg(any(feature = "all", feature = "c13"))]
        "C13" => rw::run_c13(&ctx),
        #[cfg(any(feature = "all", feature = "c15"))]
        "C15" => c15::run(&ctx),
        #[cfg(any(feature = "all", feature = "c14"))]
        "C14" => c14::run(&ctx),
        #[cfg(any(feature = "all", feature = "c09"))]
        "C09" => c09::run(&ctx),
        #[cfg(any(feature = "all", feature = "c10"))]
        "C10" => c10::run(&ctx),
        #[cfg(any(feature = "all", feature = "c19"))]
        "C19" => c19::run(&ctx),
        #[cfg(any(feature = "all", feature = "c22"))]
        "C22" => c22::run(&ctx),
        #[cfg(any(feature = "all", feature = "c23"))]
        "C23" => c23::run(&ctx),
        #[cfg(any(feature = "all", feature = "c24"))]
        "C24" => c24::run(&ctx),
        #[cfg(any(feature = "all", feature = "c25"))]
        "C25" => c25::run(&ctx),
        #[cfg(any(feature = "all", feature = "c26"))]
        "C26" => c26::run(&ctx),
        #[cfg(any(feature = "all", feature = "c27"))]
        "C27" => c27::run(&ctx),
        #[cfg(any(feature = "all", feature = "c28"))]
        "C28" => c28::run(&ctx),
        #[cfg(any(feature = "all", feature = "c21"))]
        "C21" => c21::run(&ctx),
        #[cfg(any(feature = "all", feature = "c16"))]
        "C16" => c16::run_c16(&ctx),
        #[cfg(any(feature = "all", feature = "c17"))]
        "C17" => c16::run_c17(&ctx),
        #[cfg(any(feature = "all", feature = "c05"))]
        "C05" => elems::run_c05(&ctx),
        #[cfg(any(feature = "all", feature = "c18"))]
        "C18" => elems::run_c18(&ctx),
        _ => {
            eprintln!("unknown check {}", check);
            std::process::exit(64);
        }
    }
    #[cfg(feature = "shim")]
    {
        let (s, x, b, d) = parking_lot::shim::stats();
        ctx.count("shared_lock_acquisitions", s);
        ctx.count("exclusive_lock_acquisitions", x);
        ctx.count("lock_waits", b);
        ctx.count("lock_delays", d);
    }
    ctx.finish(serde_json::Value::Null);
}
