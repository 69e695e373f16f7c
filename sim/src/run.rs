//! Driving the real library under the simulator.
use crate::heap;
use crate::scn::*;
use hybridcvrp::config::Config;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub fn scratch() -> PathBuf {
    let base = std::env::var("DST_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = PathBuf::from(base).join(format!("w{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}

pub fn plan(e: &Env, budget: u64) -> simhook::Plan {
    let mut p = simhook::Plan::new();
    p.seed = e.seed;
    p.base = if e.base == 0 { 1_000_000_000_000 } else { e.base };
    p.per_draw = e.per_draw;
    p.per_read = e.per_read;
    p.budget = budget;
    p.events = e.events.iter().map(|x| simhook::Event { on_read: x.on_read, at: x.at, jump: x.jump, rate: x.rate }).collect();
    p.rules = e.faults.iter().map(|f| simhook::Rule { class: f.class, op: f.op, kind: f.kind, at: f.at, arg: f.arg, count: f.count }).collect();
    p
}

/// Config with the scenario's overrides, built without the code under test's merging.
pub fn config(s: &Scn) -> Config {
    let mut v = serde_yaml::to_value(Config::default()).expect("config");
    for (k, x) in &s.cfg {
        if let Some(slot) = v.get_mut(serde_yaml::Value::String(k.clone()).as_str().unwrap()) {
            *slot = serde_yaml::to_value(x).expect("value");
        }
    }
    serde_yaml::from_value(v).expect("config from value")
}

pub fn write_instance(s: &Scn) -> PathBuf {
    let p = scratch().join("inst.vrp");
    std::fs::write(&p, s.inst().text()).expect("scratch instance");
    p
}

/// A new run of the library: the instance goes through the real parser.
pub fn context(s: &Scn) -> Context {
    let path = scratch().join("inst.vrp");
    let mut cfg = config(s);
    cfg.instance_path = path.to_string_lossy().into_owned();
    let start = instant::Instant::now();
    let mut parser = ProblemParser::new();
    parser.parse(&mut cfg);
    Context::new(parser, cfg, start)
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Ok,
    Panic(String),
    Budget,
}
static mut LAST_PANIC: String = String::new();
pub fn panic_text() -> String {
    last_panic()
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let was = simhook::active();
        simhook::set_active(false);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = format!("{} at {}", m, loc) };
        simhook::set_active(was);
    }));
}
#[allow(static_mut_refs)]
fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}
/// `f` under the simulated environment `e`.
pub fn under<T>(e: &Env, budget: u64, paths: &[(u8, String)], f: impl FnOnce() -> T) -> (Result<T, End>, simhook::Stats) {
    let mut p = plan(e, budget);
    for (c, x) in paths {
        p.paths[*c as usize] = x.clone();
    }
    // the standard library keeps the keys of its hash maps per thread and counts them up: start them
    // here, and at a place of the environment's choosing
    for _ in 0..1 + e.seed % 13 {
        std::hint::black_box(std::collections::hash_map::RandomState::new());
    }
    if e.heap != 0 {
        heap::on(e.heap);
    }
    simhook::begin(&p);
    let r = catch_unwind(AssertUnwindSafe(f));
    let st = simhook::end();
    heap::off();
    let r = match r {
        Ok(x) => Ok(x),
        Err(p) => {
            if p.is::<simhook::BudgetExceeded>() {
                Err(End::Budget)
            } else {
                Err(End::Panic(last_panic()))
            }
        }
    };
    (r, st)
}
pub fn account(o: &mut Out, e: &Env, st: &simhook::Stats) {
    o.runs += 1;
    o.draws += st.draws;
    o.sim_ns += st.elapsed_ns;
    for (i, f) in e.faults.iter().enumerate() {
        o.fault(&f.name(), st.fired[i]);
    }
    o.fault("clock_jump_or_rate_change", st.events);
}
/// payload of the harness' own early stop
pub struct Stop;

/// harness code run in the middle of a simulated run: not charged, not simulated
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let a = simhook::active();
    simhook::set_active(false);
    let r = f();
    simhook::set_active(a);
    r
}
pub fn context_at(s: &Scn) -> (Context, u64) {
    let path = scratch().join("inst.vrp");
    let mut cfg = config(s);
    cfg.instance_path = path.to_string_lossy().into_owned();
    let start = instant::Instant::now();
    let t0 = simhook::now_ns();
    let mut parser = ProblemParser::new();
    parser.parse(&mut cfg);
    (Context::new(parser, cfg, start), t0)
}
