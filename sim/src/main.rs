//! Deterministic simulation of hybridcvrp: scenarios, seeded search, minimisation, replay.
#![allow(dead_code)]
#![recursion_limit = "512"]
mod heap;
mod inst;
mod orch;
mod props;
mod rng;
mod run;
mod scn;

#[cfg(feature = "core")]
mod appx;
#[cfg(feature = "dec")]
mod dec;
#[cfg(feature = "core")]
mod det;
#[cfg(feature = "core")]
mod drun;
#[cfg(feature = "core")]
mod fmt;
#[cfg(feature = "core")]
mod ga;
#[cfg(feature = "core")]
mod io;
#[cfg(feature = "core")]
mod logx;
#[cfg(feature = "core")]
mod memx;
#[cfg(feature = "ls")]
mod ls;
#[cfg(feature = "rr")]
mod rr;
#[cfg(feature = "rr")]
mod rrx;
#[cfg(feature = "sel")]
mod sel;
#[cfg(feature = "rr")]
mod setx;
#[cfg(feature = "split")]
mod split;
#[cfg(feature = "web")]
mod web;

#[global_allocator]
static ALLOC: heap::Guard = heap::Guard;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => orch::check(&a[2..]),
        Some("worker") => orch::worker(&a[2..]),
        Some("runone") => orch::runone(&a[2..]),
        Some("gen") => orch::gen_print(&a[2..]),
        Some("replay") => orch::replay(&a[2..]),
        Some("list") => {
            for p in props::table() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some("selftest") => orch::selftest(&a[2..]),
        _ => {
            eprintln!("usage: dst check|replay|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
