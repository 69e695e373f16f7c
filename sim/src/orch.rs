//! Orchestration: worker processes, attribution of crashes and hangs, minimisation, replay, evidence.
use crate::props::{find, Prop};
use crate::rng::mix;
use crate::scn::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn cpu_limit() -> i64 {
    std::env::var("DST_CPU_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(40)
}
const WORKERS: u64 = 8;

pub fn scenario(p: &Prop, base: u64, idx: u64, thorough: bool) -> Scn {
    let seed = mix(mix(base, 0x5eed), idx);
    let mut s = (p.gen)(idx, seed, thorough);
    if s.b("big") {
        crate::ga::tame(&mut s);
    }
    s.seed = seed;
    s
}

// ------------------------------------------------------------------ worker side
static mut PROTO: i32 = 1;
extern "C" fn on_prof(_: i32) {
    unsafe {
        let m = b"H\n";
        libc::syscall(libc::SYS_write, PROTO, m.as_ptr(), m.len());
        libc::syscall(libc::SYS_exit_group, 98i64);
    }
}
fn arm() {
    let secs = cpu_limit();
    unsafe {
        let tv = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &tv, std::ptr::null_mut());
    }
}
/// in a copy of a worker: no progress ends the copy alone
pub fn arm_copy() {
    extern "C" fn end(_: i32) {
        unsafe {
            libc::syscall(libc::SYS_exit_group, 98i64);
        }
    }
    unsafe {
        libc::signal(libc::SIGPROF, end as *const () as usize);
    }
    arm();
}
fn proto_setup() {
    unsafe {
        let p = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 240);
        PROTO = p;
        let n = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, b"/dev/null\0".as_ptr(), libc::O_WRONLY, 0) as i32;
        libc::dup2(n, 1);
        if std::env::var("DST_STDERR").is_err() {
            libc::dup2(n, 2);
        }
        libc::syscall(libc::SYS_close, n);
        libc::signal(libc::SIGPROF, on_prof as *const () as usize);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    crate::run::quiet_panics();
}
fn emit(s: &str) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let r = unsafe { libc::syscall(libc::SYS_write, PROTO, b[o..].as_ptr(), b.len() - o) };
        if r <= 0 {
            std::process::exit(3);
        }
        o += r as usize;
    }
}
fn exec(p: &Prop, s: &Scn) -> Out {
    arm();
    // a thread of its own, so that nothing kept per thread (hash keys) survives from earlier scenarios
    let run = p.run;
    let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || run(s)).expect("thread").join());
    let mut o = match r {
        Ok(o) => o,
        Err(_) => {
            simhook::set_active(false);
            crate::heap::off();
            let mut o = Out::default();
            o.aborted = Some(format!("harness: {}", crate::run::panic_text()));
            o
        }
    };
    o.seed = s.seed;
    if o.runs == 0 {
        o.runs = 1;
    }
    o
}
pub fn worker(a: &[String]) -> i32 {
    let p = match find(&a[0]) {
        Some(p) => p,
        None => return 2,
    };
    let thorough = a[1] == "thorough";
    let base: u64 = a[2].parse().unwrap();
    let start: u64 = a[3].parse().unwrap();
    let stride: u64 = a[4].parse().unwrap();
    let end: u64 = a[5].parse().unwrap();
    let deadline = Instant::now() + Duration::from_millis(a[6].parse().unwrap());
    proto_setup();
    let mut i = start;
    while i < end {
        if Instant::now() > deadline {
            emit("T\n");
            break;
        }
        emit(&format!("B {}\n", i));
        let s = scenario(&p, base, i, thorough);
        let o = exec(&p, &s);
        emit(&format!("E {} {}\n", i, serde_json::to_string(&o).unwrap()));
        i += stride;
    }
    clean_scratch();
    0
}
pub fn clean_scratch() {
    let d = crate::run::scratch();
    if d.components().count() > 2 {
        let _ = std::fs::remove_dir_all(&d);
    }
}
pub fn runone(a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[0]).expect("scenario file");
    let v: Value = serde_json::from_str(&t).expect("json");
    let s: Scn = serde_json::from_value(v.get("scenario").cloned().unwrap_or(v)).expect("scenario");
    let p = match find(&s.prop) {
        Some(p) => p,
        None => return 2,
    };
    proto_setup();
    let o = exec(&p, &s);
    emit(&format!("E 0 {}\n", serde_json::to_string(&o).unwrap()));
    clean_scratch();
    0
}
pub fn gen_print(a: &[String]) -> i32 {
    let p = find(&a[0]).expect("property");
    let base: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let i: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    println!("{}", serde_json::to_string_pretty(&scenario(&p, base, i, a.get(3).map_or(false, |s| s == "thorough"))).unwrap());
    0
}

// ------------------------------------------------------------------ orchestrator side
fn me() -> PathBuf {
    std::env::current_exe().expect("exe")
}
fn crash_out(p: &Prop, what: &str, detail: String) -> Out {
    let mut o = Out::default();
    o.runs = 1;
    if p.crash_counts {
        o.v(what, detail);
    } else {
        o.aborted = Some(format!("{}: {}", what, detail));
    }
    o
}
fn death(p: &Prop, st: std::process::ExitStatus, hung: bool) -> Out {
    use std::os::unix::process::ExitStatusExt;
    if hung || st.code() == Some(98) {
        return crash_out(p, "hang", format!("the run made no progress for {} s of processor time", cpu_limit()));
    }
    if let Some(sig) = st.signal() {
        if p.id == "C11" && (sig == libc::SIGSEGV || sig == libc::SIGBUS) {
            let mut o = Out::default();
            o.runs = 1;
            o.v("fault", format!("the run used memory that is not its own: it died of signal {}", sig));
            return o;
        }
        return crash_out(p, "crash", format!("the run died of signal {}", sig));
    }
    crash_out(p, "exit", format!("the run ended the process with status {:?}", st.code()))
}
/// one scenario in a fresh process
pub fn isolated(p: &Prop, s: &Scn, dir: &Path) -> Out {
    let f = dir.join(format!("cand-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(s).unwrap()).expect("scratch");
    let out = Command::new(me()).arg("runone").arg(&f).env("DST_SCRATCH", dir).stdin(Stdio::null()).stderr(Stdio::null()).output();
    let out = match out {
        Ok(o) => o,
        Err(_) => {
            let mut o = Out::default();
            o.aborted = Some("harness: spawn".into());
            return o;
        }
    };
    let text = String::from_utf8_lossy(&out.stdout);
    let mut hung = false;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("E 0 ") {
            if let Ok(o) = serde_json::from_str::<Out>(r) {
                return o;
            }
        }
        if l == "H" {
            hung = true;
        }
    }
    death(p, out.status, hung)
}

struct Agg {
    runs: u64,
    scenarios: u64,
    sim_ns: u128,
    draws: u64,
    faults: BTreeMap<String, u64>,
    count: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    aborted: BTreeMap<String, u64>,
    abort_examples: Vec<String>,
}
enum Msg {
    Done(u64, Out),
    Timeout(u64),
    Finished(u64),
    HarnessError(String),
}

fn spawn_worker(p_id: &'static str, tier: &str, base: u64, w: u64, start: u64, end: u64, deadline: Instant, dir: PathBuf, tx: mpsc::Sender<Msg>, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> std::thread::JoinHandle<()> {
    let tier = tier.to_string();
    std::thread::spawn(move || {
        let p = find(p_id).unwrap();
        let mut start = start;
        loop {
            let left = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
            let mut ch = match Command::new(me())
                .args(&["worker", p_id, &tier, &base.to_string(), &start.to_string(), &WORKERS.to_string(), &end.to_string(), &left.to_string()])
                .env("DST_SCRATCH", &dir)
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .spawn()
            {
                Ok(c) => c,
                Err(e) => {
                    let _ = tx.send(Msg::HarnessError(format!("spawn: {}", e)));
                    return;
                }
            };
            let rd = BufReader::new(ch.stdout.take().unwrap());
            let mut cur: Option<u64> = None;
            let mut hung = false;
            let mut timeout = false;
            for l in rd.lines() {
                let l = match l {
                    Ok(l) => l,
                    Err(_) => break,
                };
                if stop.load(std::sync::atomic::Ordering::Relaxed) {
                    let _ = ch.kill();
                    break;
                }
                if let Some(r) = l.strip_prefix("B ") {
                    cur = r.parse().ok();
                } else if let Some(r) = l.strip_prefix("E ") {
                    let mut it = r.splitn(2, ' ');
                    let i: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    match it.next().and_then(|x| serde_json::from_str::<Out>(x).ok()) {
                        Some(o) => {
                            cur = None;
                            let _ = tx.send(Msg::Done(i, o));
                        }
                        None => {
                            let _ = tx.send(Msg::HarnessError(format!("bad line from worker: {}", &r[..r.len().min(200)])));
                        }
                    }
                } else if l == "H" {
                    hung = true;
                } else if l == "T" {
                    timeout = true;
                }
            }
            let st = ch.wait().expect("wait");
            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                break;
            }
            if timeout {
                let _ = tx.send(Msg::Timeout(w));
                break;
            }
            match cur {
                Some(i) => {
                    let mut o = death(&p, st, hung);
                    o.seed = mix(mix(base, 0x5eed), i);
                    let _ = tx.send(Msg::Done(i, o));
                    start = i + WORKERS;
                    if start >= end {
                        break;
                    }
                }
                None => {
                    if !st.success() {
                        let _ = tx.send(Msg::HarnessError(format!("worker ended with {:?}", st)));
                    }
                    break;
                }
            }
        }
        let _ = tx.send(Msg::Finished(w));
    })
}

pub fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let pid = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let key = l.split_whitespace().find_map(|w| w.strip_prefix("key="))?;
            if pid == prop {
                Some((key.to_string(), l.to_string()))
            } else {
                None
            }
        })
        .collect()
}

pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = &a[0];
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = match find(id) {
        Some(p) => p,
        None => {
            println!("ERROR: no check for {} in this build", id);
            return 2;
        }
    };
    let total: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall: u64 = arg(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 170 });
    println!("seed {} property {} tier {} runs {}", seed, id, tier, total);
    let dir = std::env::temp_dir().join(format!("dst-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let deadline = t0 + Duration::from_secs(wall);
    let (tx, rx) = mpsc::channel();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut live = WORKERS;
    let hs: Vec<_> = (0..WORKERS).map(|w| spawn_worker(p.id, &tier, seed, w, w, total, deadline, dir.clone(), tx.clone(), stop.clone())).collect();
    drop(tx);
    let mut g = Agg { runs: 0, scenarios: 0, sim_ns: 0, draws: 0, faults: BTreeMap::new(), count: BTreeMap::new(), traces: HashSet::new(), nontrivial: HashSet::new(), aborted: BTreeMap::new(), abort_examples: vec![] };
    let kn = known(id);
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut viols: Vec<(u64, Out)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut timed_out = 0;
    let mut sample_idx: Vec<(u64, u64)> = vec![];
    let mut grace: Option<Instant> = None;
    while live > 0 {
        let m = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(m) => m,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if let Some(t) = grace {
                    if Instant::now() > t {
                        break;
                    }
                }
                continue;
            }
            Err(_) => break,
        };
        match m {
            Msg::Done(i, o) => {
                g.scenarios += 1;
                g.runs += o.runs;
                g.sim_ns += o.sim_ns as u128;
                g.draws += o.draws;
                for (k, v) in &o.faults {
                    *g.faults.entry(k.clone()).or_insert(0) += v;
                }
                for (k, v) in &o.count {
                    *g.count.entry(k.clone()).or_insert(0) += v;
                }
                if o.trace != 0 {
                    g.traces.insert(o.trace);
                    if o.nontrivial {
                        g.nontrivial.insert(o.trace);
                        if sample_idx.len() < 200 {
                            sample_idx.push((i, o.trace));
                        }
                    }
                }
                if let Some(w) = &o.aborted {
                    if w.starts_with("harness") {
                        harness.push(format!("run {}: {}", i, w));
                    }
                    let k: String = w.chars().take(60).collect();
                    *g.aborted.entry(k).or_insert(0) += 1;
                    if g.abort_examples.len() < 5 {
                        g.abort_examples.push(format!("run {}: {}", i, w));
                    }
                }
                if let Some(v) = &o.viol {
                    if let Some((k, line)) = kn.iter().find(|(k, _)| *k == v.key) {
                        let e = known_hits.entry(k.clone()).or_insert((0, line.clone()));
                        e.0 += 1;
                    } else {
                        viols.push((i, o));
                        if grace.is_none() {
                            // let the runs already under way finish, then stop
                            grace = Some(Instant::now() + Duration::from_secs(2));
                            
                        }
                        if viols.len() >= 8 {
                            break;
                        }
                    }
                }
                if let Some(t) = grace {
                    if Instant::now() > t {
                        break;
                    }
                }
            }
            Msg::Timeout(_) => timed_out += 1,
            Msg::Finished(_) => live -= 1,
            Msg::HarnessError(e) => harness.push(e),
        }
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    drop(rx);
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut n_viol = 0;
    // findings recorded as known
    for (k, (n, line)) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} runs, key {})", id, line, n, k);
    }
    if !viols.is_empty() {
        viols.sort_by_key(|v| v.0);
        // prefer violations that reproduce in a fresh process; report the smallest index of those
        let mut chosen: Option<(u64, Scn, Viol, bool)> = None;
        for (i, o) in viols.iter().take(4) {
            let s = scenario(&p, seed, *i, thorough);
            let r = isolated(&p, &s, &dir);
            if let Some(v) = r.viol {
                chosen = Some((*i, s, v, true));
                break;
            }
            if chosen.is_none() {
                chosen = Some((*i, s, o.viol.clone().unwrap(), false));
            }
        }
        let (i, s, v, repro) = chosen.unwrap();
        let left = if thorough { 120 } else { 45 };
        let (ms, mv, tried) = if repro { shrink(&p, s.clone(), v.clone(), &dir, Duration::from_secs(left)) } else { (s.clone(), v.clone(), 0) };
        let rd = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let f = rd.join(format!("{}-{}-{}.json", id, seed, i));
        let fin = isolated(&p, &ms, &dir);
        let doc = json!({
            "property": id, "seed": seed, "run": i, "violation": mv, "reproduced_in_fresh_process": repro,
            "trace": fin.trace, "draws": fin.draws, "shrink_candidates_tried": tried,
            "scenario": ms, "original": s,
        });
        std::fs::write(&f, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        println!("violated: {}", mv.msg);
        println!("key: {}  run index {}  scenario seed {}  minimised over {} candidates", mv.key, i, s.seed, tried);
        println!("replay with: {} replay {}", me().display(), f.display());
        println!("VIOLATION property={} replay={}", id, f.display());
        n_viol = viols.len() as i64;
        code = 1;
    }
    for h in hs {
        if code == 0 {
            let _ = h.join();
        }
    }
    // repeat a sample in fresh processes: same digest or the simulation is not deterministic
    let mut repeated = 0;
    let mut mismatched = vec![];
    let mut samples = vec![];
    if code == 0 {
        let step = (sample_idx.len() / 6).max(1);
        for (i, tr) in sample_idx.iter().step_by(step).take(6) {
            let s = scenario(&p, seed, *i, thorough);
            let o = isolated(&p, &s, &dir);
            repeated += 1;
            if o.trace != *tr {
                mismatched.push(*i);
            }
            if samples.len() < 3 {
                samples.push(json!({"run": i, "scenario": s, "trace": format!("{:016x}", o.trace), "draws": o.draws, "sim_seconds": o.sim_ns as f64 / 1e9, "counters": o.count}));
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let per_h = g.runs as f64 / search_s.max(0.001) * 3600.0;
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": g.runs,
            "distinct_nontrivial": g.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "scenarios": g.scenarios,
            "scenarios_planned": total,
            "runs_per_hour": per_h.round(),
            "seeds_per_hour": (g.scenarios as f64 / search_s.max(0.001) * 3600.0).round(),
            "simulated_seconds": (g.sim_ns / 1_000_000) as f64 / 1e3,
            "random_draws": g.draws,
            "faults_injected": g.faults,
            "probes": g.count,
            "distinct_traces": g.traces.len(),
            "distinct_measure": "digest of the run's observable trajectory (reported costs and when, draws, counters)",
            "aborted_runs": g.aborted,
            "aborted_examples": g.abort_examples,
            "repeated_in_fresh_process": repeated,
            "repeat_mismatches": mismatched,
            "workers_out_of_time": timed_out,
            "real_components": p.real,
            "stubbed_components": p.stub,
            "harness_errors": harness,
            "known_findings_hit": known_hits.iter().map(|(k, v)| json!({"key": k, "runs": v.0})).collect::<Vec<_>>(),
        },
        "assumptions": ["a sample of scenarios, not all of them", "x86-64 Linux, release profile without debug assertions"],
        "wall_s": wall_s,
        "violations": n_viol,
    });
    let ed = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{}: {} runs of {} scenarios, {} distinct, {} non-trivial distinct, {:.0} s simulated, {:.1} s wall, {} aborted, repeats {}/{} equal",
        id,
        g.runs,
        g.scenarios,
        g.traces.len(),
        g.nontrivial.len(),
        g.sim_ns as f64 / 1e9,
        wall_s,
        g.aborted.values().sum::<u64>(),
        repeated - mismatched.len(),
        repeated
    );
    if dir.starts_with(std::env::temp_dir()) {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if code == 0 {
        if !harness.is_empty() {
            println!("ERROR: harness: {}", harness[0]);
            return 2;
        }
        if g.scenarios == 0 || g.nontrivial.is_empty() {
            println!("ERROR: nothing was explored");
            return 2;
        }
        println!("OK property={}", id);
    }
    code
}

pub fn replay(a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[0]).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("json");
    let s: Scn = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let p = find(&s.prop).expect("property");
    let dir = std::env::temp_dir().join(format!("dst-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let o = isolated(&p, &s, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    println!("trace {:016x} draws {} (recorded {:016x} {})", o.trace, o.draws, v["trace"].as_u64().unwrap_or(0), v["draws"]);
    match o.viol {
        Some(x) => {
            println!("violated: {} [{}]", x.msg, x.key);
            println!("VIOLATION property={} replay={}", s.prop, a[0]);
            1
        }
        None => {
            println!("no violation{}", o.aborted.map(|x| format!(" (aborted: {})", x)).unwrap_or_default());
            0
        }
    }
}

/// determinism: many scenarios, each run in two different processes under two orders
pub fn selftest(a: &[String]) -> i32 {
    let n: u64 = a.get(0).and_then(|s| s.parse().ok()).unwrap_or(40);
    let only = a.get(1).cloned();
    let dir = std::env::temp_dir().join(format!("dst-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let mut bad = 0;
    for p in crate::props::table() {
        if let Some(o) = &only {
            if o != p.id {
                continue;
            }
        }
        let collect = |seed: u64, workers: u64| -> BTreeMap<u64, (u64, u64)> {
            let chunks: Vec<_> = (0..workers)
                .map(|w| {
                    Command::new(me())
                        .args(&["worker", p.id, "quick", &seed.to_string(), &w.to_string(), &workers.to_string(), &n.to_string(), "600000"])
                        .env("DST_SCRATCH", &dir)
                        .stdout(Stdio::piped())
                        .spawn()
                        .expect("spawn")
                })
                .collect();
            let mut m = BTreeMap::new();
            for c in chunks {
                let out = c.wait_with_output().expect("worker");
                for l in String::from_utf8_lossy(&out.stdout).lines() {
                    if let Some(r) = l.strip_prefix("E ") {
                        let mut it = r.splitn(2, ' ');
                        let i: u64 = it.next().unwrap().parse().unwrap();
                        let o: Out = serde_json::from_str(it.next().unwrap()).unwrap();
                        m.insert(i, (o.trace, o.draws));
                    }
                }
            }
            m
        };
        let mut diff = 0;
        let mut tot = 0;
        for seed in [1u64, 2] {
            let x = collect(seed, 8);
            let y = collect(seed, 5);
            tot += x.len();
            for (k, v) in &x {
                if y.get(k) != Some(v) {
                    diff += 1;
                    println!("{} seed {} run {}: {:?} vs {:?}", p.id, seed, k, v, y.get(k));
                }
            }
            if x.len() != y.len() {
                diff += 1;
            }
        }
        println!("{}: {} scenarios twice, {} differences", p.id, tot, diff);
        bad += diff;
    }
    let _ = std::fs::remove_dir_all(&dir);
    if bad > 0 {
        1
    } else {
        0
    }
}

// ------------------------------------------------------------------ minimisation
fn shrink(p: &Prop, mut s: Scn, mut v: Viol, dir: &Path, limit: Duration) -> (Scn, Viol, u64) {
    let t = Instant::now();
    let mut tried = 0u64;
    let mut try_one = |s: &mut Scn, v: &mut Viol, c: Scn, tried: &mut u64| -> bool {
        if t.elapsed() > limit {
            return false;
        }
        *tried += 1;
        let o = isolated(p, &c, dir);
        if let Some(w) = o.viol {
            if w.key == v.key {
                *s = c;
                *v = w;
                return true;
            }
        }
        false
    };
    loop {
        let before = serde_json::to_string(&s).unwrap();
        // fewer steps
        let mut k = s.steps / 2;
        while k >= 1 && k < s.steps {
            let mut c = s.clone();
            c.steps = s.steps - k;
            if !try_one(&mut s, &mut v, c, &mut tried) {
                k /= 2;
            } else {
                k = k.min(s.steps / 2);
            }
        }
        // fewer operations, events, faults
        for name in ["subs", "ops", "deadlines"] {
            if let Some(Value::Array(ops)) = s.par.get(name).cloned() {
                let mut chunk = (ops.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    loop {
                        let cur = match s.par.get(name) {
                            Some(Value::Array(x)) => x.clone(),
                            _ => vec![],
                        };
                        if i >= cur.len() {
                            break;
                        }
                        let mut nx = cur.clone();
                        nx.drain(i..(i + chunk).min(cur.len()));
                        let mut c = s.clone();
                        c.par.insert(name.to_string(), Value::Array(nx));
                        if !try_one(&mut s, &mut v, c, &mut tried) {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        for which in 0..2 {
            let n = |s: &Scn| if which == 0 { s.env.events.len() } else { s.env.faults.len() };
            let mut i = 0;
            while i < n(&s) {
                let mut c = s.clone();
                if which == 0 {
                    c.env.events.remove(i);
                } else {
                    c.env.faults.remove(i);
                }
                if !try_one(&mut s, &mut v, c, &mut tried) {
                    i += 1;
                }
            }
        }
        if s.env.heap != 0 && s.env2.is_none() {
            let mut c = s.clone();
            c.env.heap = 0;
            try_one(&mut s, &mut v, c, &mut tried);
        }
        // fewer customers
        if !s.b("fixed_inst") {
            if let Some(inst) = s.inst.clone() {
                let mut chunk = (inst.n() / 2).max(1);
                loop {
                    let mut i = 1;
                    loop {
                        let cur = s.inst.clone().unwrap();
                        if i > cur.n() || cur.n() <= 1 {
                            break;
                        }
                        let mut k = cur.clone();
                        for _ in 0..chunk {
                            if k.n() > 1 && i <= k.n() {
                                k = k.without(i);
                            }
                        }
                        let mut c = s.clone();
                        c.inst = Some(k);
                        if !try_one(&mut s, &mut v, c, &mut tried) {
                            i += chunk;
                        }
                    }
                    if chunk == 1 || t.elapsed() > limit {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        // settings back to their defaults
        let keys: Vec<String> = s.cfg.keys().cloned().collect();
        for k in keys {
            if ["time_limit", "deterministic", "seed", "round_distances"].contains(&k.as_str()) {
                continue;
            }
            let mut c = s.clone();
            c.cfg.remove(&k);
            try_one(&mut s, &mut v, c, &mut tried);
        }
        if t.elapsed() > limit || serde_json::to_string(&s).unwrap() == before {
            break;
        }
    }
    let _ = std::io::stdout().flush();
    (s, v, tried)
}
