//! Whole-program runs: the shipped binary as a simulated process with its own files.
use crate::inst::{self, Inst, Kind};
use crate::props::*;
use crate::rng::{mix, H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::Solver;
use serde_json::{json, Map, Value};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            gen: gen_c08,
            run: run_c08,
            quick: 5000,
            thorough: 60000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = a config file (random keys, values, order, comments, unknown keys) x a command line x read faults on the config file; the settings path is run as a process and must print the merged settings of the reference merge; then the whole program is run and must write exactly the solution the library finds under those settings, end at the simulated time they give and use the named output file; non-trivial: some setting came from the file and some from the command line, or a fault fired",
            real: REAL_APP,
            stub: STUB_APP,
        },
        Prop {
            id: "C09",
            gen: gen_c09,
            run: run_c09,
            quick: 5000,
            thorough: 60000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = instance x configuration; the whole program is run once undisturbed (its file compared with the library's result in reference format) and then with a batch of output faults: short and interrupted writes, errors and full disks at any byte, denied opens, kills at any byte, each over a fresh, stale or half-written file, and again without faults over what that left; non-trivial: an injected fault fired",
            real: REAL_APP,
            stub: STUB_APP,
        },
        Prop {
            id: "C16",
            gen: gen_c16,
            run: run_c16,
            quick: 5000,
            thorough: 60000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = instance x configuration; the contest program's standard output is compared with the improvements the library reports (number, order, cost, each block a valid solution) and then under kills at any byte, kills at any moment of the search, short and interrupted writes; non-trivial: at least one improvement was printed and one fault fired",
            real: REAL_APP,
            stub: STUB_APP,
        },
        Prop {
            id: "C23",
            gen: gen_c23,
            run: run_c23,
            quick: 5000,
            thorough: 60000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = instance x configuration x the arguments of the contest script (paths with blanks, rounded or not, limits, missing and wrong ones) x faults on the standard output of the program it starts (short and interrupted writes, kills at any byte); the script's standard output, exit status and solution file are compared with those of the contest program under the same settings given by the config file alone; non-trivial: a run that reports something was asked for, or a request had to be refused",
            real: &["HGSRR-DIMACS.sh unmodified, run by bash", "the contest build of the hybridcvrp program (main.rs unmodified, library, clap, serde_yaml, kernel file system in a scratch directory)"],
            stub: STUB_APP,
        },
    ]
}

// ------------------------------------------------------------------ running a process
pub struct Res {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub draws: u64,
    pub reads: u64,
    pub elapsed: u64,
    pub fired: Vec<u64>,
    pub hang: bool,
    pub allocs: u64,
    pub alloc_failures: u64,
    pub reported: bool,
    pub timeout: bool,
}
pub struct Launch<'a> {
    pub bin: &'a str, // environment variable naming the binary
    pub dir: &'a Path,
    pub args: Vec<String>,
    pub env: &'a Env,
    pub paths: Vec<(u8, String)>,
    pub budget: u64,
    pub alloc: (u64, u64, u64),
    pub extra: Vec<(&'a str, String)>,
}
impl<'a> Launch<'a> {
    pub fn new(bin: &'a str, dir: &'a Path, env: &'a Env) -> Launch<'a> {
        Launch { bin, dir, args: vec![], env, paths: vec![], budget: 60_000_000, alloc: (0, 1, 0), extra: vec![] }
    }
}
pub fn bin(var: &str) -> PathBuf {
    if let Ok(p) = std::env::var(var) {
        return PathBuf::from(p);
    }
    let me = std::env::current_exe().expect("exe");
    let d = me.parent().unwrap();
    match var {
        "DST_PROBE" => d.join("probe"),
        "DST_APP_DIMACS" => d.join("../dimacs/release/app_dimacs"),
        _ => d.join("app"),
    }
}
pub fn launch(l: Launch) -> Res {
    use std::os::unix::process::ExitStatusExt;
    let mut p = plan(l.env, l.budget);
    for (c, x) in &l.paths {
        p.paths[*c as usize] = x.clone();
    }
    p.fail_alloc_at = l.alloc.0;
    p.fail_alloc_count = l.alloc.1;
    p.fail_alloc_min = l.alloc.2;
    let (pf, rf) = (scratch().join("plan.txt"), scratch().join("report.txt"));
    p.report = rf.to_string_lossy().into_owned();
    let _ = std::fs::remove_file(&rf);
    std::fs::write(&pf, simhook::print_plan(&p)).expect("plan");
    let of = scratch().join("stdout.bin");
    let ef = scratch().join("stderr.bin");
    let mut c = Command::new(if l.bin == "bash" { PathBuf::from("/bin/bash") } else { bin(l.bin) });
    c.args(&l.args)
        .current_dir(l.dir)
        .env_clear()
        .env("DST_PLAN", &pf)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&of).expect("scratch"))
        .stderr(std::fs::File::create(&ef).expect("scratch"));
    for (k, v) in &l.extra {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("program under test");
    let t = Instant::now();
    let mut timeout = false;
    let mut nap = 200;
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s,
            None => {
                if t.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    timeout = true;
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(5000);
            }
        }
    };
    let slurp = |p: &Path| {
        let mut v = vec![];
        if let Ok(mut f) = std::fs::File::open(p) {
            let _ = f.read_to_end(&mut v);
        }
        v
    };
    let rep: Value = std::fs::read_to_string(&rf).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    let u = |k: &str| rep[k].as_u64().unwrap_or(0);
    Res {
        code: st.code(),
        signal: st.signal(),
        stdout: slurp(&of),
        stderr: slurp(&ef),
        draws: u("draws"),
        reads: u("reads"),
        elapsed: u("elapsed"),
        fired: rep["fired"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default(),
        hang: rep["hang"].as_bool().unwrap_or(false) || st.code() == Some(96),
        allocs: u("allocs"),
        alloc_failures: u("alloc_failures"),
        reported: !rep.is_null(),
        timeout,
    }
}
impl Res {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(97), _) => "its draw budget ran out".into(),
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".into(),
        }
    }
    pub fn tail(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr);
        let l: Vec<&str> = s.lines().filter(|l| !l.contains("INFO")).collect();
        l.iter().rev().take(3).rev().cloned().collect::<Vec<_>>().join(" | ").chars().take(300).collect()
    }
    pub fn account(&self, o: &mut Out, e: &Env) {
        o.runs += 1;
        o.draws += self.draws;
        o.sim_ns += self.elapsed;
        for (i, f) in e.faults.iter().enumerate() {
            o.fault(&f.name(), self.fired.get(i).copied().unwrap_or(0));
        }
    }
    pub fn fired(&self, i: usize) -> bool {
        self.fired.get(i).map_or(false, |x| *x > 0)
    }
}
/// an empty working directory of the simulated program
pub fn workdir() -> PathBuf {
    let d = scratch().join("wd");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    d
}
pub fn yaml(cfg: &Map<String, Value>) -> String {
    let mut s = String::new();
    for (k, v) in cfg {
        s += &format!("{}: {}\n", k, yv(v));
    }
    if s.is_empty() {
        s = "{}\n".into();
    }
    s
}
fn yv(v: &Value) -> String {
    match v {
        Value::String(x) => format!("\"{}\"", x),
        Value::Null => "~".into(),
        x => x.to_string(),
    }
}

// ------------------------------------------------------------------ what the library does with the same settings
pub struct Lib {
    /// reference text of the final solution, as a solution file holds it ("" if there is none)
    pub file: String,
    pub costs: Vec<f64>,
    /// simulated time of each report since the start, as the history has it
    pub stamps: Vec<u64>,
    pub routes: Vec<Vec<usize>>,
    pub draws: u64,
}
pub fn solution_text(routes: &[Vec<usize>], cost: f64) -> String {
    let mut s = String::new();
    let mut k = 1;
    for r in routes {
        if !r.is_empty() {
            s += &format!("Route #{}: {}\n", k, r.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
            k += 1;
        }
    }
    s += &format!("Cost {}\n", cost.round() as u64);
    s
}
/// run the library itself on this scenario's settings and clock
pub fn library(s: &Scn, e: &Env) -> Result<Lib, End> {
    let path = write_instance(s);
    let mut e = e.clone();
    // how long reading takes stays the same
    e.faults.retain(|f| f.kind == simhook::K_SLOW && f.class == simhook::INSTANCE);
    e.heap = 0;
    let mut out = None;
    let (r, st) = under(&e, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let grab = |ctx: &hybridcvrp::solver::Context| {
            let h = ctx.search_history.borrow();
            let (routes, cost) = h.last_entry().map(|e| (e.solution.routes.clone(), e.solution.cost)).unwrap_or_default();
            Lib {
                file: if h.last_entry().is_some() { solution_text(&routes, cost) } else { String::new() },
                costs: h.entries().iter().map(|e| e.solution.cost).collect(),
                stamps: h.entries().iter().map(|e| e.timestamp.as_nanos() as u64).collect(),
                routes,
                draws: 0,
            }
        };
        if ctx.problem.num_customers() as u64 >= s.cu("decompose_limit", 3000) {
            let m = DecomposedGeneticAlgorithm::new(&ctx);
            let mut sv = Solver::new(ctx, m);
            sv.run();
            outside(|| out = Some(grab(&sv.ctx)));
        } else {
            let m = GeneticAlgorithm::new(&ctx);
            let mut sv = Solver::new(ctx, m);
            sv.run();
            outside(|| out = Some(grab(&sv.ctx)));
        }
    });
    r?;
    let mut l = out.unwrap();
    l.draws = st.draws;
    Ok(l)
}
/// the blocks of a text in solution format: (routes, cost line); Err: not in format
pub fn blocks(t: &str) -> Result<Vec<(Vec<Vec<usize>>, u64)>, String> {
    let mut v = vec![];
    let mut cur: Vec<Vec<usize>> = vec![];
    for l in t.lines() {
        if let Some(c) = l.strip_prefix("Cost ") {
            let c: u64 = c.parse().map_err(|_| format!("cost line {:?}", l))?;
            v.push((std::mem::take(&mut cur), c));
        } else if let Some(r) = l.strip_prefix("Route #") {
            let mut it = r.splitn(2, ':');
            let k: usize = it.next().unwrap().parse().map_err(|_| format!("route line {:?}", l))?;
            if k != cur.len() + 1 {
                return Err(format!("route number {} after {} routes", k, cur.len()));
            }
            let mut q = vec![];
            for w in it.next().ok_or_else(|| format!("route line {:?}", l))?.split_whitespace() {
                q.push(w.parse().map_err(|_| format!("route line {:?}", l))?);
            }
            if q.is_empty() {
                return Err(format!("empty route {:?}", l));
            }
            cur.push(q);
        } else {
            return Err(format!("line {:?}", l));
        }
    }
    if !cur.is_empty() {
        return Err("routes without a cost line".into());
    }
    Ok(v)
}

// ------------------------------------------------------------------ scenarios
pub fn app_base(prop: &str, seed: u64, max: usize) -> (R, Scn) {
    let mut r = R::new(seed);
    let mut s = Scn::new(prop, "app", seed);
    let n = match r.us(0, 8) {
        0 => 1,
        1 => r.us(2, 4),
        7 => r.us(10, max),
        _ => r.us(3, 14),
    };
    let mut b = R::new(seed ^ 0xB16);
    let big = max > 30 && prop != "C07" && crate::ga::is_big(&mut b, 60);
    let n = if big { crate::ga::big_n(&mut b) } else { n };
    gen_cfg(&mut r, &mut s, n);
    if big {
        s.c("rr_gamma", json!(1.0));
        s.c("local_search_granularity", json!(20));
    }
    s.c("deterministic", json!(true));
    let rounded = s.rounded();
    let kind = *r.pick(&[Kind::Feasible, Kind::Any, Kind::Loose, Kind::Edge, Kind::Tight]);
    s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    s.c("max_iterations", json!(r.range(1, 25)));
    s.c("initial_individuals", json!(r.range(1, 12)));
    if s.cb("elite_education", false) {
        s.c("elite_education_gamma", json!(5.0));
    }
    if big && s.cu("max_iterations", 0) > 6 {
        s.c("max_iterations", json!(6));
    }
    s.env.seed = r.u64();
    s.env.per_draw = *r.pick(&[0u64, 1, 1000, 100_000]);
    s.env.per_read = *r.pick(&[0u64, 50, 5000]);
    s.budget = 20_000_000;
    (r, s)
}
/// the run takes the algorithm of large instances; it ends at its deadline, after `draws` draws
pub fn decomposed(r: &mut R, s: &mut Scn, draws: u64) {
    s.c("decompose_limit", json!(r.range(0, s.inst().n() as u64 + 1)));
    s.c("decomposed_problem_min_size", json!(*r.pick(&[1u64, 2, 3, 5, 8, 200])));
    s.c("average_ruin_cardinality", json!(r.range(1, 4)));
    s.c("max_ruin_string_length", json!(r.range(1, 4)));
    s.cfg.remove("max_iterations");
    s.cfg.remove("elite_education");
    s.c("time_limit", json!(1));
    s.env.per_draw = (1_000_000_000 / draws).max(1);
    s.env.per_read = 0;
    s.budget = 40_000_000;
}
pub fn oracle(s: &Scn, o: &mut Out) -> Option<Lib> {
    match library(s, &s.env) {
        Ok(l) => {
            o.runs += 1;
            o.draws += l.draws;
            Some(l)
        }
        Err(End::Panic(m)) => {
            o.aborted = Some(format!("panic: {}", m));
            None
        }
        Err(_) => {
            o.aborted = Some("draw budget".into());
            None
        }
    }
}
pub fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let t: String = t.chars().take(160).collect();
    format!("{:?}", t)
}
fn ofault(op: u8, kind: u8, at: u64, arg: u64, count: u64) -> Fault {
    Fault { class: simhook::OUTPUT, op, kind, at, arg, count }
}

// ------------------------------------------------------------------ C09
fn gen_c09(_i: u64, seed: u64, _t: bool) -> Scn {
    let (mut r, mut s) = app_base("C09", seed, 60);
    if r.p(0.08) {
        // nothing feasible exists
        let m = s.inst().max_demand();
        if m > 2.0 {
            s.inst.as_mut().unwrap().cap = (m / 2.0).floor().max(1.0);
        }
    }
    if r.p(0.25) {
        // the deadline ends the run
        s.cfg.remove("max_iterations");
        s.c("time_limit", json!(1));
        s.env.per_draw = 1_000_000_000 / r.range(200, 20_000);
        s.set("timed", json!(true));
    } else if r.p(0.06) {
        let draws = r.range(200, 50_000);
        decomposed(&mut r, &mut s, draws);
    }
    let mut subs: Vec<Value> = vec![];
    let prior = |r: &mut R| -> Value { json!(*r.pick(&["none", "none", "longer", "longer", "shorter", "same", "binary"])) };
    for _ in 0..r.us(2, 5) {
        let mut f = vec![];
        match r.us(0, 4) {
            0 => f.push(ofault(2, simhook::K_CAP, r.range(0, 2), r.range(1, 20), u64::MAX)),
            1 => f.push(ofault(2, simhook::K_RAND, 0, r.range(1, 60), u64::MAX)),
            2 => f.push(ofault(2, simhook::K_EINTR, r.range(0, 4), 0, r.range(1, 8))),
            _ => {
                f.push(ofault(2, simhook::K_EINTR, r.range(0, 4), 0, r.range(1, 8)));
                f.push(ofault(2, simhook::K_RAND, 0, r.range(1, 30), u64::MAX));
            }
        }
        if r.p(0.1) {
            f.push(ofault(0, simhook::K_EINTR, 0, 0, 1));
        }
        subs.push(json!({"faults": f, "prior": prior(&mut r), "again": r.p(0.2)}));
    }
    // places are given in thousandths of the right content
    for _ in 0..r.us(2, 5) {
        let e = *r.pick(&[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EBADF, libc::EAGAIN]) as u64;
        let mut f = vec![ofault(2, simhook::K_ERR, r.range(0, 1000), e, *r.pick(&[u64::MAX, u64::MAX, 1]))];
        if r.p(0.4) {
            f.push(ofault(2, simhook::K_RAND, 0, r.range(1, 30), u64::MAX));
        }
        subs.push(json!({"faults": f, "prior": prior(&mut r), "again": r.p(0.5), "scaled": true}));
    }
    for _ in 0..r.us(2, 4) {
        let mut f = vec![ofault(2, simhook::K_KILL, r.range(0, 1000), 0, 1)];
        if r.p(0.4) {
            f.push(ofault(2, simhook::K_RAND, 0, r.range(1, 30), u64::MAX));
        }
        subs.push(json!({"faults": f, "prior": prior(&mut r), "again": r.p(0.7), "scaled": true}));
    }
    match r.us(0, 6) {
        0 => subs.push(json!({"faults": [ofault(0, simhook::K_ERR, 0, *r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE]) as u64, u64::MAX)], "prior": prior(&mut r), "again": r.p(0.5)})),
        1 => subs.push(json!({"faults": [ofault(0, simhook::K_KILL, 0, 0, 1)], "prior": prior(&mut r), "again": true})),
        2 => subs.push(json!({"faults": [], "prior": "directory", "again": false})),
        3 => subs.push(json!({"faults": [], "prior": "no_parent", "again": false})),
        _ => {}
    }
    s.set("subs", json!(subs));
    s.set("out", json!(*r.pick(&["output.sol", "answer.txt", "deep/er/x.sol"])));
    s
}
fn run_c09(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    let mut tr = H::new();
    let lib = match oracle(s, &mut o) {
        Some(l) => l,
        None => return o,
    };
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let name = s.par.get("out").and_then(|v| v.as_str()).unwrap_or("output.sol").to_string();
    let out = wd.join(&name);
    let _ = std::fs::create_dir_all(out.parent().unwrap());
    let run = |e: &Env, name: &str| {
        let mut l = Launch::new("DST_APP", &wd, e);
        l.args = vec!["inst.vrp".into()];
        if name != "output.sol" {
            l.args.push("-o".into());
            l.args.push(name.into());
        }
        l.paths = vec![(simhook::OUTPUT, name.into())];
        l.budget = s.budget;
        launch(l)
    };
    let read = || std::fs::read(&out).ok();
    let wipe = || {
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_dir(&out);
    };
    let mut e = s.env.clone();
    e.faults.clear();
    let base = run(&e, &name);
    base.account(&mut o, &e);
    if !base.ok() {
        o.aborted = Some(format!("undisturbed run: {} {}", base.how(), base.tail()));
        return o;
    }
    let f0 = match read() {
        Some(f) => f,
        None => {
            o.v("no-file", "a successful run left no solution file".into());
            return o;
        }
    };
    tr.add(base.draws);
    for b in &f0 {
        tr.add(*b as u64);
    }
    // undisturbed: the library's result in reference format
    if !s.b("timed") {
        if f0 != lib.file.as_bytes() {
            o.v("content", format!("the solution file holds {} but the final best solution is {}", show(&f0), show(lib.file.as_bytes())));
            return o;
        }
    } else if !f0.is_empty() {
        match std::str::from_utf8(&f0).map_err(|_| "not text".to_string()).and_then(blocks) {
            Ok(b) if b.len() == 1 && f0.ends_with(b"\n") => {
                if let Some(m) = s.inst().partition_err(&b[0].0).or_else(|| s.inst().overload_err(&b[0].0)) {
                    o.v("content", format!("the solution file is not a valid solution: {}", m));
                    return o;
                }
                let c = s.inst().cost(&b[0].0, s.rounded());
                if (c - b[0].1 as f64).abs() > 0.5 + s.inst().tol_cost(c) {
                    o.v("content", format!("the solution file says {} for routes of length {}", b[0].1, c));
                    return o;
                }
            }
            Ok(b) => {
                o.v("content", format!("the solution file holds {} solutions: {}", b.len(), show(&f0)));
                return o;
            }
            Err(m) => {
                o.v("content", format!("the solution file is not in format: {}", m));
                return o;
            }
        }
    }
    if f0.is_empty() {
        o.inc("empty_files", 1);
    }
    let subs: Vec<Value> = s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    for (k, sub) in subs.iter().enumerate() {
        let mut faults: Vec<Fault> = serde_json::from_value(sub["faults"].clone()).unwrap_or_default();
        if sub["scaled"].as_bool() == Some(true) {
            for f in faults.iter_mut() {
                if f.kind == simhook::K_ERR || f.kind == simhook::K_KILL {
                    f.at = (f.at * f0.len() as u64 + 999) / 1000;
                }
            }
        }
        wipe();
        let prior = sub["prior"].as_str().unwrap_or("none");
        let mut nm = name.clone();
        match prior {
            "longer" => std::fs::write(&out, [&f0[..], b"Route #99: 1 2 3\nCost 12345\nleft over\n", &f0[..]].concat()).unwrap(),
            "shorter" => std::fs::write(&out, &f0[..f0.len() / 2]).unwrap(),
            "same" => std::fs::write(&out, &f0).unwrap(),
            "binary" => std::fs::write(&out, vec![0xffu8; 5000]).unwrap(),
            "directory" => std::fs::create_dir_all(&out).unwrap(),
            "no_parent" => nm = "absent/dir/x.sol".into(),
            _ => {}
        }
        let mut e = s.env.clone();
        e.seed = s.env.seed;
        e.faults = faults.clone();
        let r = run(&e, &nm);
        r.account(&mut o, &e);
        let (mut err, mut kill, mut hard) = (false, r.signal == Some(libc::SIGKILL), false);
        for (i, f) in faults.iter().enumerate() {
            if r.fired(i) {
                o.nontrivial = true;
                if f.kind == simhook::K_ERR {
                    err = true;
                    hard |= f.op == simhook::OP_OPEN || f.count > 1_000_000;
                }
            }
        }
        if kill {
            o.nontrivial = true;
            o.fault("output_kill", 1);
            kill = faults.iter().any(|f| f.kind == simhook::K_KILL);
        }
        let desc = || format!("{} over a file that was {}: {}", k, prior, faults.iter().map(|f| format!("{} at {} arg {}", f.name(), f.at, f.arg)).collect::<Vec<_>>().join(", "));
        if prior == "directory" || prior == "no_parent" {
            o.fault(&format!("output_{}", prior), 1);
            o.nontrivial = true;
            if r.ok() {
                o.v("open-failure-ignored", format!("the output file cannot be opened ({}) but the run says it succeeded", prior));
                return o;
            }
            continue;
        }
        let now = read();
        tr.add(r.code.unwrap_or(999) as u64);
        tr.add(now.as_ref().map_or(0, |x| x.len() as u64));
        if r.hang || r.timeout || r.code == Some(97) {
            o.v("hang", format!("the run did not end [{}]", desc()));
            return o;
        }
        if kill {
            if let Some(n) = &now {
                if !f0.starts_with(n) {
                    o.v("kill-content", format!("killed during the write, the file holds {} which is no prefix of {} [{}]", show(n), show(&f0), desc()));
                    return o;
                }
            }
            o.inc("killed", 1);
        } else if r.ok() {
            if hard {
                o.v("failure-ignored", format!("writing failed but the run says it succeeded; the file holds {} [{}]", now.as_ref().map_or("nothing".into(), |n| show(n)), desc()));
                return o;
            }
            if now.as_deref() != Some(&f0[..]) {
                o.v("exact", format!("a successful run left {} instead of {} [{}]", now.as_ref().map_or("no file".into(), |n| show(n)), show(&f0), desc()));
                return o;
            }
        } else if !err {
            o.v("spurious-failure", format!("nothing failed but the run ended with {} {} [{}]", r.how(), r.tail(), desc()));
            return o;
        } else {
            o.inc("failed_as_it_should", 1);
        }
        if sub["again"].as_bool() == Some(true) {
            let mut e = s.env.clone();
            e.faults.clear();
            let r = run(&e, &name);
            r.account(&mut o, &e);
            if !r.ok() || read().as_deref() != Some(&f0[..]) {
                o.v("again", format!("a later run over the left-over of [{}] ended with {} and left {} instead of {}", desc(), r.how(), read().map_or("no file".into(), |n| show(&n)), show(&f0)));
                return o;
            }
            o.inc("runs_over_left_overs", 1);
        }
    }
    wipe();
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C16
fn gen_c16(_i: u64, seed: u64, _t: bool) -> Scn {
    let (mut r, mut s) = app_base("C16", seed, 50);
    if r.p(0.7) && s.inst().n() < 8 {
        let n = r.us(8, 40);
        let rounded = s.rounded();
        let kind = *r.pick(&[Kind::Feasible, Kind::Any, Kind::Loose]);
        s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    }
    s.c("max_iterations", json!(r.range(5, 60)));
    // one nanosecond per draw: the history's time stamps name the draw of each report
    s.env.per_draw = 1;
    s.env.per_read = 0;
    if r.p(0.12) {
        let draws = if r.p(0.1) { r.range(500_000, 4_000_000) } else { r.range(1000, 200_000) };
        decomposed(&mut r, &mut s, draws);
    }
    let mut subs: Vec<Value> = vec![];
    let f = |kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::STDOUT, op: 2, kind, at, arg, count };
    for _ in 0..r.us(1, 4) {
        subs.push(json!({"faults": [f(simhook::K_KILL, r.range(0, 1001), 0, 1)], "scaled": true}));
    }
    if r.p(0.7) {
        subs.push(json!({"faults": [f(simhook::K_KILL, r.range(0, 1001), 0, 1), f(simhook::K_RAND, 0, r.range(1, 40), u64::MAX)], "scaled": true}));
    }
    for _ in 0..r.us(2, 6) {
        subs.push(json!({"faults": [], "moment": r.range(0, 1000)}));
    }
    // right after a report
    for _ in 0..r.us(1, 4) {
        subs.push(json!({"faults": [], "after_report": r.range(0, 1000)}));
    }
    for _ in 0..r.us(1, 3) {
        let mut v = vec![];
        if r.p(0.7) {
            v.push(f(if r.p(0.5) { simhook::K_RAND } else { simhook::K_CAP }, 0, r.range(1, 50), u64::MAX));
        }
        if r.p(0.6) {
            v.push(f(simhook::K_EINTR, r.range(0, 10), 0, r.range(1, 20)));
        }
        subs.push(json!({ "faults": v }));
    }
    s.set("subs", json!(subs));
    s
}
fn run_c16(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    let mut tr = H::new();
    let lib = match oracle(s, &mut o) {
        Some(l) => l,
        None => return o,
    };
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let inst = s.inst();
    let run = |e: &Env, budget: u64| {
        let mut l = Launch::new("DST_APP_DIMACS", &wd, e);
        l.args = vec!["inst.vrp".into()];
        l.paths = vec![(simhook::STDOUT, "-".into())];
        l.budget = budget;
        launch(l)
    };
    let mut e = s.env.clone();
    e.faults.clear();
    let base = run(&e, s.budget);
    base.account(&mut o, &e);
    if !base.ok() {
        o.aborted = Some(format!("undisturbed run: {} {}", base.how(), base.tail()));
        return o;
    }
    let s0 = base.stdout.clone();
    // every improvement, in full and in order
    let bl = match std::str::from_utf8(&s0).map_err(|_| "not text".to_string()).and_then(blocks) {
        Ok(b) => b,
        Err(m) => {
            o.v("format", format!("standard output is not a sequence of solutions: {}", m));
            return o;
        }
    };
    if !s0.is_empty() && !s0.ends_with(b"\n") {
        o.v("format", "standard output does not end with a complete line".into());
        return o;
    }
    if bl.len() != lib.costs.len() {
        o.v("number", format!("{} improvements were found but {} were printed", lib.costs.len(), bl.len()));
        return o;
    }
    let mut last = f64::INFINITY;
    for (k, (routes, cost)) in bl.iter().enumerate() {
        if let Some(m) = inst.partition_err(routes).or_else(|| inst.overload_err(routes)) {
            o.v("block", format!("printed solution {}: {}", k, m));
            return o;
        }
        let c = inst.cost(routes, s.rounded());
        if (c - lib.costs[k]).abs() > inst.tol_cost(c) || (c - *cost as f64).abs() > 0.5 + inst.tol_cost(c) {
            o.v("block", format!("printed solution {} has length {} and says {}, the improvement costs {}", k, c, cost, lib.costs[k]));
            return o;
        }
        if c >= last + inst.tol_cost(c) {
            o.v("order", format!("printed solution {} of length {} follows one of {}", k, c, last));
            return o;
        }
        last = c;
    }
    let tail = lib.file.as_bytes();
    if !s0.ends_with(tail) || std::fs::read(wd.join("output.sol")).ok().as_deref() != Some(tail) {
        o.v("final", "the last printed solution, the solution file and the library's result differ".into());
        return o;
    }
    for b in &s0 {
        tr.add(*b as u64);
    }
    tr.add(base.draws);
    // where the k-th block ends
    let mut ends = vec![];
    {
        let t = std::str::from_utf8(&s0).unwrap();
        let mut pos = 0;
        for l in t.split_inclusive('\n') {
            pos += l.len();
            if l.starts_with("Cost ") {
                ends.push(pos);
            }
        }
    }
    let subs: Vec<Value> = s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    for (k, sub) in subs.iter().enumerate() {
        let mut faults: Vec<Fault> = serde_json::from_value(sub["faults"].clone()).unwrap_or_default();
        if sub["scaled"].as_bool() == Some(true) {
            for f in faults.iter_mut() {
                if f.kind == simhook::K_KILL {
                    f.at = f.at * s0.len() as u64 / 1000;
                }
            }
        }
        let mut budget = s.budget;
        let mut moment = None;
        if let Some(m) = sub["moment"].as_u64() {
            moment = Some(1 + m * base.draws / 1000);
        }
        if let (Some(m), false) = (sub["after_report"].as_u64(), lib.stamps.is_empty()) {
            let d = lib.stamps[(m as usize * lib.stamps.len() / 1000).min(lib.stamps.len() - 1)];
            moment = Some(d / s.env.per_draw + 1 + m % 3);
        }
        if let Some(m) = moment {
            budget = m;
        }
        let mut e = s.env.clone();
        e.faults = faults.clone();
        let r = run(&e, budget);
        r.account(&mut o, &e);
        let desc = || format!("{}: {}", k, faults.iter().map(|f| format!("{} at {} arg {}", f.name(), f.at, f.arg)).collect::<Vec<_>>().join(", "));
        tr.add(r.stdout.len() as u64);
        if r.signal == Some(libc::SIGKILL) {
            o.fault("stdout_kill", 1);
        }
        if !bl.is_empty() && (r.fired.iter().any(|x| *x > 0) || r.signal.is_some() || r.code == Some(97)) {
            o.nontrivial = true;
        }
        if r.timeout || r.hang {
            o.v("hang", format!("the run did not end [{}]", desc()));
            return o;
        }
        if !s0.starts_with(&r.stdout) {
            o.v("prefix", format!("standard output is no prefix of the undisturbed one: {} [{}]", show(&r.stdout[r.stdout.len().saturating_sub(100)..]), desc()));
            return o;
        }
        if r.code == Some(97) {
            // killed at a moment of the search: everything found before it has been printed in full
            o.fault("kill_at_draw", 1);
            let found = lib.stamps.iter().filter(|d| **d / s.env.per_draw < budget).count();
            let done = ends.iter().filter(|e| **e <= r.stdout.len()).count();
            if done < found {
                o.v("late", format!("killed at draw {}, {} improvements had been found but only {} printed in full", budget, found, done));
                return o;
            }
            o.inc("killed_in_search", 1);
        } else if r.signal.is_none() && !faults.iter().any(|f| f.kind == simhook::K_KILL) && (r.stdout != s0 || !r.ok()) {
            o.v("lost", format!("the run ended with {} and printed {} of {} bytes [{}]", r.how(), r.stdout.len(), s0.len(), desc()));
            return o;
        }
    }
    o.inc("improvements_printed", bl.len() as u64);
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C23
fn gen_c23(_i: u64, seed: u64, _t: bool) -> Scn {
    let (mut r, mut s) = app_base("C23", seed, 30);
    let limit = r.range(1, 6);
    if r.p(0.8) {
        // the limit ends the run
        s.cfg.remove("max_iterations");
        s.cfg.remove("elite_education");
        s.env.per_draw = 1_000_000_000 / r.range(50, 4000);
        s.env.per_read = 0;
    }
    // what the config file says about the two settings the script decides
    match r.us(0, 3) {
        0 => {
            s.cfg.remove("time_limit");
        }
        _ => s.c("time_limit", json!(r.range(1, 9))),
    }
    match r.us(0, 3) {
        0 => {
            s.cfg.remove("round_distances");
        }
        1 => s.c("round_distances", json!(true)),
        _ => s.c("round_distances", json!(false)),
    }
    let rounded = *r.pick(&["1", "1", "0", "0", "2"]);
    let name = *r.pick(&["inst.vrp", "inst.vrp", "./a/b.vrp", "with blank.vrp", "some where/else .vrp", "*.vrp", "$HOME.vrp"]);
    s.set("name", json!(name));
    s.set("rounded", json!(rounded));
    s.set("limit", json!(limit));
    let f = |kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::STDOUT, op: 2, kind, at, arg, count };
    let mut subs: Vec<Value> = vec![];
    for _ in 0..r.us(1, 4) {
        let mut v = vec![];
        match r.us(0, 3) {
            0 => v.push(f(simhook::K_KILL, r.range(0, 1001), 0, 1)),
            1 => v.push(f(if r.p(0.5) { simhook::K_RAND } else { simhook::K_CAP }, 0, r.range(1, 50), u64::MAX)),
            _ => v.push(f(simhook::K_EINTR, r.range(0, 10), 0, r.range(1, 20))),
        }
        subs.push(json!({"faults": v}));
    }
    let lim = limit.to_string();
    let bad: [Vec<&str>; 10] = [vec![name, rounded, "1.5"], vec![name, rounded, "5x"], vec![name, rounded, "1e1"], vec![], vec![name], vec![name, rounded], vec![name, rounded, "0"], vec![name, rounded, "-3"], vec![name, rounded, "ten"], vec!["not there.vrp", rounded, &lim]];
    for _ in 0..r.us(1, 3) {
        subs.push(json!({"faults": [], "args": r.pick(&bad)}));
    }
    s.set("subs", json!(subs));
    s
}
fn run_c23(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    let mut tr = H::new();
    let get = |k: &str| s.par.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    let (name, rounded, limit) = (get("name"), get("rounded"), s.par.get("limit").and_then(|v| v.as_u64()).unwrap_or(1));
    let inst = wd.join(&name);
    std::fs::create_dir_all(inst.parent().unwrap()).expect("scratch");
    std::fs::write(&inst, s.inst().text()).expect("scratch");
    std::fs::write(wd.join("decoy.vrp"), "NAME : decoy\n").expect("scratch");
    let script = std::env::var("DST_SCRIPT").unwrap_or_else(|_| "/repo/HGSRR-DIMACS.sh".into());
    std::fs::copy(script, wd.join("HGSRR-DIMACS.sh")).expect("contest script");
    std::os::unix::fs::symlink(std::fs::canonicalize(bin("DST_APP_DIMACS")).expect("contest program"), wd.join("hybridcvrp")).expect("scratch");
    let out = wd.join("output.sol");
    let clean = || {
        let _ = std::fs::remove_file(&out);
    };
    // the same settings, all from the config file
    let mut cfg = s.cfg.clone();
    cfg.insert("time_limit".into(), json!(limit));
    cfg.insert("round_distances".into(), json!(rounded == "1"));
    std::fs::write(wd.join("config.yml"), yaml(&cfg)).expect("scratch");
    let mut e = s.env.clone();
    e.faults.clear();
    let base = {
        let mut l = Launch::new("DST_APP_DIMACS", &wd, &e);
        l.args = vec![name.clone()];
        l.paths = vec![(simhook::STDOUT, "-".into())];
        l.budget = s.budget;
        launch(l)
    };
    base.account(&mut o, &e);
    if !base.ok() {
        o.aborted = Some(format!("undisturbed run: {} {}", base.how(), base.tail()));
        return o;
    }
    let file0 = std::fs::read(&out).ok();
    for b in &base.stdout {
        tr.add(*b as u64);
    }
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let asked = vec![name.clone(), rounded.clone(), limit.to_string()];
    let mut subs: Vec<Value> = vec![json!({"faults": []})];
    subs.extend(s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default());
    for (k, sub) in subs.iter().enumerate() {
        clean();
        let mut faults: Vec<Fault> = serde_json::from_value(sub["faults"].clone()).unwrap_or_default();
        for f in faults.iter_mut() {
            if f.kind == simhook::K_KILL {
                f.at = f.at * base.stdout.len() as u64 / 1000;
            }
        }
        let bad: Option<Vec<String>> = sub.get("args").and_then(|v| serde_json::from_value(v.clone()).ok());
        let mut e = s.env.clone();
        e.faults = faults.clone();
        let mut l = Launch::new("bash", &wd, &e);
        l.args = vec!["HGSRR-DIMACS.sh".into()];
        l.args.extend(bad.clone().unwrap_or_else(|| asked.clone()));
        let desc = format!("{}: HGSRR-DIMACS.sh {:?} {}", k, &l.args[1..], faults.iter().map(|f| format!("{} at {} arg {}", f.name(), f.at, f.arg)).collect::<Vec<_>>().join(", "));
        l.paths = vec![(simhook::STDOUT, "-".into())];
        l.budget = s.budget;
        let r = launch(l);
        r.account(&mut o, &e);
        tr.add(r.stdout.len() as u64);
        if r.timeout || r.hang {
            o.v("hang", format!("the script did not end [{}]", desc));
            return o;
        }
        let file = std::fs::read(&out).ok();
        if bad.is_some() {
            o.nontrivial = true;
            o.inc("refused", 1);
            let printed = String::from_utf8_lossy(&r.stdout).lines().any(|l| l.starts_with("Route #") || l.starts_with("Cost "));
            if r.ok() || printed || file.is_some() {
                o.v("not-refused", format!("ended with {}, {} [{}]", r.how(), if printed { "printing a solution" } else { "as if it had run" }, desc));
                return o;
            }
            continue;
        }
        if !base.stdout.is_empty() {
            o.nontrivial = true;
        }
        if faults.iter().any(|f| f.kind == simhook::K_KILL) && r.fired.iter().any(|x| *x > 0) || r.code == Some(128 + libc::SIGKILL) {
            o.fault("stdout_kill", 1);
            if r.code != Some(128 + libc::SIGKILL) {
                o.v("status", format!("the program was killed, the script ended with {} [{}]", r.how(), desc));
                return o;
            }
            if !base.stdout.starts_with(&r.stdout) {
                o.v("output", format!("the script printed what its run did not [{}]", desc));
                return o;
            }
            continue;
        }
        if !r.ok() {
            o.v("status", format!("the script ended with {}: {} [{}]", r.how(), r.tail(), desc));
            return o;
        }
        if r.stdout != base.stdout {
            o.v("output", format!("the script printed {} instead of {} [{}]", show(&r.stdout[r.stdout.len().saturating_sub(200)..]), show(&base.stdout[base.stdout.len().saturating_sub(200)..]), desc));
            return o;
        }
        if file != file0 {
            o.v("file", format!("the run of the script left another solution file [{}]", desc));
            return o;
        }
        if r.elapsed != base.elapsed {
            o.v("limit", format!("the run took {} ns of simulated time instead of {} [{}]", r.elapsed, base.elapsed, desc));
            return o;
        }
    }
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C07, whole program
pub fn gen_c07(seed: u64) -> Scn {
    let (mut r, mut s) = app_base("C07", seed, 40);
    s.kind = "app7".into();
    s.c("max_iterations", json!(r.range(1, 4)));
    let len = s.inst().text().len() as u64;
    let f = |op: u8, kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::INSTANCE, op, kind, at, arg, count };
    let mut subs: Vec<Vec<Fault>> = vec![];
    subs.push(vec![f(1, simhook::K_RAND, 0, r.range(1, 50), u64::MAX), f(1, simhook::K_EINTR, r.range(0, 5), 0, r.range(1, 9))]);
    for _ in 0..3 {
        let mut v = vec![f(1, simhook::K_EOF, r.range(0, len), 0, 1)];
        if r.p(0.5) {
            v.push(f(1, simhook::K_RAND, 0, r.range(1, 50), u64::MAX));
        }
        subs.push(v);
    }
    for _ in 0..2 {
        subs.push(vec![f(1, simhook::K_ERR, r.range(0, len), libc::EIO as u64, u64::MAX)]);
    }
    subs.push(vec![f(0, simhook::K_ERR, 0, libc::EACCES as u64, u64::MAX)]);
    s.set("subs", serde_json::to_value(&subs).unwrap());
    s
}
pub fn run_c07(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    let text = s.inst().text();
    let (lo, hi) = crate::io::needed(s.inst(), &text);
    std::fs::write(wd.join("inst.vrp"), &text).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let out = wd.join("output.sol");
    let run = |e: &Env| {
        let _ = std::fs::remove_file(&out);
        let mut l = Launch::new("DST_APP", &wd, e);
        l.args = vec!["inst.vrp".into()];
        l.paths = vec![(simhook::INSTANCE, "inst.vrp".into())];
        l.budget = s.budget;
        launch(l)
    };
    let mut e = s.env.clone();
    e.faults.clear();
    let base = run(&e);
    base.account(&mut o, &e);
    if !base.ok() {
        o.aborted = Some(format!("undisturbed run: {} {}", base.how(), base.tail()));
        return o;
    }
    let f0 = std::fs::read(&out).unwrap_or_default();
    let mut tr = H::new();
    tr.add(base.draws);
    let subs: Vec<Vec<Fault>> = serde_json::from_value(s.par.get("subs").cloned().unwrap_or(json!([]))).unwrap_or_default();
    for faults in subs {
        let mut e = s.env.clone();
        e.faults = faults.clone();
        let r = run(&e);
        r.account(&mut o, &e);
        let desc = || faults.iter().map(|f| format!("{} at {} arg {}", f.name(), f.at, f.arg)).collect::<Vec<_>>().join(", ");
        let mut must = false;
        let mut may = false;
        for (i, f) in faults.iter().enumerate() {
            if r.fired(i) {
                o.nontrivial = true;
                must |= f.kind == simhook::K_ERR || (f.kind == simhook::K_EOF && f.at <= lo);
                may |= f.kind == simhook::K_EOF && f.at > lo;
                if f.kind == simhook::K_EOF && f.at > lo && f.at < hi {
                    may = true;
                }
            }
        }
        tr.add(r.code.unwrap_or(999) as u64);
        if r.hang || r.timeout || r.code == Some(97) {
            o.v("hang", format!("the program did not end on a failing instance file [{}]", desc()));
            return o;
        }
        let now = std::fs::read(&out).ok();
        if must && r.ok() {
            o.v("error-ignored", format!("the program succeeded on an instance file it could not read in full [{}]", desc()));
            return o;
        }
        if must && now.as_ref().map_or(false, |n| !n.is_empty()) {
            o.v("error-ignored", format!("the program wrote a solution for an instance file it could not read in full [{}]", desc()));
            return o;
        }
        if !must && !may && (!r.ok() || now.as_deref() != Some(&f0[..])) {
            o.v("different", format!("delivered in pieces, the same instance file led to {} and {} [{}]", r.how(), now.map_or("no file".into(), |n| show(&n)), desc()));
            return o;
        }
    }
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C08
/// settings a run may be given, with value generators that keep runs short and supported
fn value(r: &mut R, k: &str) -> Value {
    let b = |r: &mut R| json!(r.p(0.5));
    match k {
        "time_limit" => json!(*r.pick(&[0u64, 1, 2, 2, 3, 5, 9])),
        "bks" => json!(*r.pick(&[0.0, 12.5, 1000.0])),
        "max_iterations" => json!(r.range(0, 30)),
        "max_iterations_without_improvement" => json!(r.range(0, 40)),
        "num_vehicles" => json!(r.range(1, 50)),
        "log_interval" => json!(r.range(1, 200)),
        "precompute_distance_size_limit" => json!(r.range(0, 40)),
        "round_distances" | "relocate_single" | "relocate_double" | "relocate_double_reverse" | "swap_one_with_one" | "swap_two_with_one" | "swap_two_with_two" | "two_opt_intra_reverse" | "two_opt_inter_reverse" | "two_opt_inter" | "swap_star" | "rr_mutation" | "rr_diversify" | "linear_split" | "ls_enabled" | "elite_education" => b(r),
        "deterministic" => b(r),
        "dynamic_granularity" => b(r),
        "elite_education_time_based" => b(r),
        "decompose_limit" => json!(*r.pick(&[3000u64, 5000, 1000])),
        "decomposed_problem_min_size" => json!(r.range(1, 300)),
        "seed" => json!(r.range(0, 1_000_000)),
        "min_population_size" => json!(r.range(2, 30)),
        "initial_individuals" => json!(r.range(1, 12)),
        "population_lambda" => json!(r.range(1, 40)),
        "num_elites" | "num_diversity_closest" => json!(r.range(1, 6)),
        "feasibility_proportion_target" => json!(*r.pick(&[0.2, 0.25, 0.5])),
        "tournament_size" => json!(r.range(1, 4)),
        "repair_probability" => json!(*r.pick(&[0.0, 0.25, 0.5, 1.0])),
        "split_capacity_factor" => json!(*r.pick(&[1.0, 1.5, 2.0])),
        "local_search_granularity" | "granularity_min" => json!(r.range(1, 30)),
        "penalty_capacity" => json!(*r.pick(&[1.0, 50.0, 100.0])),
        "penalty_update_interval" => json!(r.range(1, 12)),
        "penalty_inc_multiplier" => json!(*r.pick(&[1.2, 1.5])),
        "penalty_dec_multiplier" => json!(*r.pick(&[0.85, 0.5])),
        "average_ruin_cardinality" | "max_ruin_string_length" => json!(r.range(1, 12)),
        "rr_probability" => json!(*r.pick(&[1.0, 0.5, 0.25])),
        "rr_gamma" => json!(*r.pick(&[1.0, 0.5, 2.0])),
        "rr_final_temp" | "elite_education_final_temp" => json!(*r.pick(&[1.0, 0.5])),
        "rr_start_temp" | "elite_education_start_temp" => json!(*r.pick(&[10.0, 50.0, 100.0])),
        "elite_education_problem_size_limit" => json!(r.range(1, 30)),
        "elite_education_gamma" => json!(*r.pick(&[1.0, 5.0])),
        "elite_education_time_fraction" => json!(*r.pick(&[0.02, 0.1])),
        _ => Value::Null,
    }
}
const KEYS: &[&str] = &[
    "time_limit", "bks", "max_iterations", "max_iterations_without_improvement", "num_vehicles", "log_interval", "precompute_distance_size_limit", "round_distances", "decompose_limit",
    "decomposed_problem_min_size", "deterministic", "seed", "min_population_size", "initial_individuals", "population_lambda", "num_elites", "num_diversity_closest", "feasibility_proportion_target",
    "tournament_size", "repair_probability", "split_capacity_factor", "linear_split", "local_search_granularity", "dynamic_granularity", "granularity_min", "ls_enabled", "relocate_single",
    "relocate_double", "relocate_double_reverse", "swap_one_with_one", "swap_two_with_one", "swap_two_with_two", "two_opt_intra_reverse", "two_opt_inter_reverse", "two_opt_inter", "swap_star",
    "penalty_capacity", "penalty_update_interval", "penalty_inc_multiplier", "penalty_dec_multiplier", "average_ruin_cardinality", "max_ruin_string_length", "rr_mutation", "rr_probability", "rr_gamma",
    "rr_final_temp", "rr_start_temp", "rr_diversify", "elite_education", "elite_education_problem_size_limit", "elite_education_gamma", "elite_education_final_temp", "elite_education_start_temp",
    "elite_education_time_based", "elite_education_time_fraction",
];
fn gen_c08(i: u64, seed: u64, _t: bool) -> Scn {
    let mut r = R::new(seed);
    let mut s = Scn::new("C08", "settings", seed);
    let n = r.us(2, 12);
    s.inst = Some(inst::gen(&mut r, n, Kind::Feasible, true));
    // the file
    let mut file: Vec<(String, Value)> = vec![];
    let density = *r.pick(&[0.0, 0.1, 0.3, 0.7, 1.0]);
    for k in KEYS {
        if r.p(density) {
            let v = value(&mut r, k);
            file.push((k.to_string(), v));
        }
    }
    if r.p(0.4) {
        file.push(("solution_path".into(), json!(*r.pick(&["from-file.sol", "a b.sol", "sub/f.sol"]))));
    }
    if r.p(0.05) {
        file.push(("max_iterations".into(), Value::Null));
        file.retain(|(k, v)| k != "max_iterations" || v.is_null());
    }
    if r.p(0.3) {
        file.push(("instance_path".into(), json!("elsewhere.vrp")));
    }
    if i % 4 == 0 {
        // so that everything shows in the result
        file.retain(|(k, _)| k != "deterministic" && k != "max_iterations" && k != "time_limit" && k != "elite_education_time_based");
        file.push(("deterministic".into(), json!(true)));
        file.push(("max_iterations".into(), json!(r.range(5, 40))));
        file.push(("time_limit".into(), json!(9)));
        s.set("slow", json!(true));
    }
    r.shuffle(&mut file);
    // the text of the file, with noise
    let mut t = String::new();
    if r.p(0.3) {
        t += "---\n";
    }
    for (k, v) in &file {
        if r.p(0.2) {
            t += &format!("# {} : 17\n", k);
        }
        if r.p(0.15) {
            t += &format!("unknown_{}: {}\n", k, r.us(0, 99));
        }
        if r.p(0.1) {
            t += "\n";
        }
        let q = if r.p(0.1) { format!("\"{}\"", k) } else { k.clone() };
        t += &format!("{}:{}{}{}\n", q, if r.p(0.2) { "    " } else { " " }, yv(v), if r.p(0.1) { "   # why" } else { "" });
    }
    if r.p(0.2) {
        t += "ruin_alpha: 0.01\nblink_probability: 0.01\nnested:\n  time_limit: 77\n  seed: [1, 2]\n";
    } else if file.is_empty() && t.trim_start_matches("---").trim().lines().all(|l| l.starts_with('#')) {
        t = "{}\n".into();
    }
    if r.p(0.05) {
        // long
        t = format!("{}{}", "# padding padding padding padding padding padding padding\n".repeat(r.us(100, 400)), t);
    }
    s.set("text", json!(t));
    s.set("file", Value::Object(file.into_iter().collect()));
    // the command line
    let mut cli = Map::new();
    let mut args: Vec<String> = vec![];
    let style = r.us(0, 3);
    let opt = |args: &mut Vec<String>, k: &str, v: String| match style {
        0 => {
            args.push(format!("-{}", k));
            args.push(v);
        }
        1 => args.push(format!("-{}{}", k, v)),
        _ => args.push(format!("-{}={}", k, v)),
    };
    let p = *r.pick(&[0.0, 0.3, 0.5, 0.8]);
    let first = r.p(0.5);
    if first {
        args.push("inst.vrp".into());
    }
    if r.p(p) {
        let v = *r.pick(&[0u64, 1, 2, 4, 7]);
        opt(&mut args, "t", v.to_string());
        cli.insert("time_limit".into(), json!(v));
    }
    if r.p(p) {
        let v = r.p(0.5);
        opt(&mut args, "r", v.to_string());
        cli.insert("round_distances".into(), json!(v));
    }
    if r.p(p) {
        let v = r.range(0, 30);
        opt(&mut args, "i", v.to_string());
        cli.insert("max_iterations_without_improvement".into(), json!(v));
    }
    if r.p(p) {
        let v = *r.pick(&["cli.sol", "x.txt", "output.sol"]);
        opt(&mut args, "o", v.to_string());
        cli.insert("solution_path".into(), json!(v));
    }
    if !first {
        args.push("inst.vrp".into());
    }
    s.set("args", json!(args));
    s.set("cli", Value::Object(cli));
    // faults on the config file
    let f = |op: u8, kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::CONFIG, op, kind, at, arg, count };
    let len = t.len() as u64;
    let mut subs: Vec<Vec<Fault>> = vec![vec![]];
    subs.push(vec![f(1, if r.p(0.5) { simhook::K_RAND } else { simhook::K_CAP }, 0, *r.pick(&[1u64, 2, 5, 17, 64, 500]), u64::MAX)]);
    if r.p(0.5) {
        subs.push(vec![f(1, simhook::K_EINTR, r.range(0, 4), 0, r.range(1, 6)), f(1, simhook::K_RAND, 0, r.range(1, 80), u64::MAX)]);
    }
    for _ in 0..r.us(1, 3) {
        let mut v = vec![f(1, simhook::K_ERR, r.range(0, len + 1), *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EISDIR]) as u64, *r.pick(&[1u64, u64::MAX]))];
        if r.p(0.4) {
            v.push(f(1, simhook::K_RAND, 0, r.range(1, 80), u64::MAX));
        }
        subs.push(v);
    }
    if r.p(0.3) {
        subs.push(vec![f(0, simhook::K_ERR, 0, *r.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE]) as u64, u64::MAX)]);
    }
    s.set("subs", serde_json::to_value(&subs).unwrap());
    s.set("whole", json!(i % 2 == 0));
    s.env.seed = r.u64();
    s.env.per_draw = 1_000_000_000 / r.range(5_000, 50_000);
    s.env.per_read = *r.pick(&[0u64, 50]);
    if s.b("slow") {
        s.env.per_draw = 10;
    }
    s.budget = 30_000_000;
    s
}
fn same(a: &Value, b: &Value) -> bool {
    match (a.as_f64(), b.as_f64()) {
        (Some(x), Some(y)) => x == y,
        _ => a == b,
    }
}
fn run_c08(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    let _ = std::fs::create_dir_all(wd.join("sub"));
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    let text = s.par.get("text").and_then(|v| v.as_str()).unwrap_or("{}\n").to_string();
    std::fs::write(wd.join("config.yml"), &text).expect("scratch");
    let args: Vec<String> = serde_json::from_value(s.par["args"].clone()).unwrap_or_default();
    // the reference merge
    let mut want: Map<String, Value> = defaults();
    let mut from_file = 0;
    if let Some(f) = s.par.get("file").and_then(|v| v.as_object()) {
        for (k, v) in f {
            if want.contains_key(k) {
                want.insert(k.clone(), v.clone());
                from_file += 1;
            }
        }
    }
    want.insert("instance_path".into(), json!("inst.vrp"));
    if want["solution_path"].is_null() {
        want.insert("solution_path".into(), json!("output.sol"));
    }
    let mut from_cli = 0;
    if let Some(f) = s.par.get("cli").and_then(|v| v.as_object()) {
        for (k, v) in f {
            want.insert(k.clone(), v.clone());
            from_cli += 1;
        }
    }
    o.nontrivial = from_file > 0 && from_cli > 0;
    let mut tr = H::new();
    let subs: Vec<Vec<Fault>> = serde_json::from_value(s.par.get("subs").cloned().unwrap_or(json!([]))).unwrap_or_default();
    for (k, faults) in subs.iter().enumerate() {
        let mut e = s.env.clone();
        e.seed = mix(e.seed, k as u64);
        e.faults = faults.clone();
        let mut l = Launch::new("DST_PROBE", &wd, &e);
        l.args = args.clone();
        l.paths = vec![(simhook::CONFIG, "config.yml".into())];
        let r = launch(l);
        r.account(&mut o, &e);
        let desc = || faults.iter().map(|f| format!("{} at {} arg {}", f.name(), f.at, f.arg)).collect::<Vec<_>>().join(", ");
        let mut err = false;
        for (i, f) in faults.iter().enumerate() {
            if r.fired(i) {
                o.nontrivial = true;
                err |= f.kind == simhook::K_ERR;
            }
        }
        tr.add(r.code.unwrap_or(999) as u64);
        for b in r.stdout.iter().take(4000) {
            tr.add(*b as u64);
        }
        if r.hang || r.timeout {
            o.v("hang", format!("reading the config did not end [{}]", desc()));
            return o;
        }
        if err {
            if r.ok() {
                o.v("error-ignored", format!("reading the config file failed but the run went on [{}]", desc()));
                return o;
            }
            o.inc("failed_as_it_should", 1);
            continue;
        }
        if !r.ok() {
            o.v("refused", format!("a well-formed config file was refused: {} [{}]", r.tail(), desc()));
            return o;
        }
        let got: Map<String, Value> = match serde_yaml::from_slice::<serde_yaml::Value>(&r.stdout).ok().map(|v| tojson(&v)) {
            Some(Value::Object(m)) => m,
            _ => {
                o.aborted = Some("harness: settings print".into());
                return o;
            }
        };
        for (k, v) in &want {
            match got.get(k) {
                // a setting this tree does not have
                None => continue,
                Some(x) if same(x, v) => {}
                Some(x) => {
                    let src = if s.par["cli"].get(k).is_some() {
                        "the command line"
                    } else if s.par["file"].get(k).is_some() {
                        "config.yml"
                    } else {
                        "its default"
                    };
                    o.v(&format!("setting:{}", k), format!("{} is {} but {} says {} [{}]", k, x, src, v, desc()));
                    return o;
                }
            }
        }
        o.inc("settings_compared", want.len() as u64);
    }
    if s.b("whole") {
        whole(s, &mut o, &mut tr, &wd, &args, &want);
    }
    o.trace = tr.0 | 1;
    o
}
fn tojson(v: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match v {
        Y::Null => Value::Null,
        Y::Bool(b) => json!(b),
        Y::Number(n) => {
            if let Some(u) = n.as_u64() {
                json!(u)
            } else if let Some(f) = n.as_f64() {
                if f.is_infinite() {
                    json!("inf")
                } else {
                    json!(f)
                }
            } else {
                Value::Null
            }
        }
        Y::String(s) => json!(s),
        Y::Sequence(q) => Value::Array(q.iter().map(tojson).collect()),
        Y::Mapping(m) => Value::Object(m.iter().map(|(k, v)| (k.as_str().unwrap_or("?").to_string(), tojson(v))).collect()),
    }
}
/// the defaults, as documented by the code at the pinned commit
fn defaults() -> Map<String, Value> {
    let v = json!({
        "instance_path": "", "solution_path": null, "time_limit": 60, "bks": "inf", "max_iterations": null,
        "max_iterations_without_improvement": 20000, "num_vehicles": 1000000, "log_interval": 100,
        "precompute_distance_size_limit": 2000, "round_distances": true, "decompose_limit": 3000,
        "decomposed_problem_min_size": 200, "deterministic": false, "seed": 1, "min_population_size": 25,
        "initial_individuals": 100, "population_lambda": 40, "num_elites": 4, "num_diversity_closest": 5,
        "feasibility_proportion_target": 0.2, "tournament_size": 2, "repair_probability": 0.5,
        "split_capacity_factor": 1.5, "linear_split": true, "ls_enabled": true, "local_search_granularity": 20,
        "dynamic_granularity": false, "granularity_min": 10, "relocate_single": true, "relocate_double": true,
        "relocate_double_reverse": false, "swap_one_with_one": true, "swap_two_with_one": true,
        "swap_two_with_two": true, "two_opt_intra_reverse": true, "two_opt_inter_reverse": true,
        "two_opt_inter": true, "swap_star": true, "penalty_capacity": 100.0, "penalty_dec_multiplier": 0.85,
        "penalty_inc_multiplier": 1.2, "penalty_update_interval": 10, "average_ruin_cardinality": 10,
        "max_ruin_string_length": 10, "rr_mutation": true, "rr_gamma": 1.0, "rr_probability": 1.0,
        "rr_final_temp": 1.0, "rr_start_temp": 10.0, "rr_diversify": true, "elite_education": false,
        "elite_education_problem_size_limit": 1, "elite_education_gamma": 1000.0, "elite_education_final_temp": 1.0,
        "elite_education_start_temp": 50.0, "elite_education_time_based": false, "elite_education_time_fraction": 0.02
    });
    v.as_object().unwrap().clone()
}
/// the program behaves as those settings say
fn whole(s: &Scn, o: &mut Out, tr: &mut H, wd: &Path, args: &[String], want: &Map<String, Value>) {
    let e = {
        let mut e = s.env.clone();
        e.faults.clear();
        e
    };
    let mut l = Launch::new("DST_APP", wd, &e);
    l.args = args.to_vec();
    l.paths = vec![(simhook::CONFIG, "config.yml".into())];
    l.budget = s.budget;
    let r = launch(l);
    r.account(o, &e);
    if !r.ok() {
        o.aborted = Some(format!("whole program: {} {}", r.how(), r.tail()));
        return;
    }
    tr.add(r.draws);
    let name = want["solution_path"].as_str().unwrap_or("output.sol");
    let file = match std::fs::read(wd.join(name)) {
        Ok(f) => f,
        Err(_) => {
            o.v("output-path", format!("the settings name {} as solution file, but the run wrote none", name));
            return;
        }
    };
    for b in &file {
        tr.add(*b as u64);
    }
    let others: Vec<String> = ["output.sol", "from-file.sol", "a b.sol", "sub/f.sol", "cli.sol", "x.txt"].iter().filter(|x| **x != name && wd.join(x).exists()).map(|x| x.to_string()).collect();
    if !others.is_empty() {
        o.v("output-path", format!("the settings name {} as solution file, but the run wrote {:?}", name, others));
        return;
    }
    let limit = want["time_limit"].as_u64().unwrap_or(60) * 1_000_000_000;
    let bounded = !want["max_iterations"].is_null();
    if !bounded && r.elapsed < limit {
        o.v("time-limit", format!("the time limit is {} s but the run ended after {} ns", limit / 1_000_000_000, r.elapsed));
        return;
    }
    // one step at most beyond the limit; a step of these small instances takes far fewer draws
    let slack = e.per_draw * 30_000 + 50_000_000;
    if r.elapsed > limit + slack {
        o.v("time-limit", format!("the time limit is {} s but the run ended after {} ns", limit / 1_000_000_000, r.elapsed));
        return;
    }
    let rounded = want["round_distances"].as_bool().unwrap_or(true);
    if let Ok(t) = std::str::from_utf8(&file) {
        if let Ok(b) = blocks(t) {
            for (routes, cost) in &b {
                let c = s.inst().cost(routes, rounded);
                if (c - *cost as f64).abs() > 0.5 + s.inst().tol_cost(c) {
                    o.v("metric", format!("rounding is {} but the cost {} is not the length {} under it", rounded, cost, c));
                    return;
                }
            }
        }
    }
    // with a budget of generations and a fixed seed everything else shows in the result
    if want["deterministic"] == json!(true) && bounded && r.elapsed < limit && want["elite_education_time_based"] != json!(true) {
        let mut t = s.clone();
        t.cfg = want.clone();
        t.cfg.remove("bks");
        match library(&t, &e) {
            Ok(lib) => {
                if lib.file.as_bytes() != &file[..] {
                    o.v("effect", format!("under these settings the library finds {} but the program wrote {}", show(lib.file.as_bytes()), show(&file)));
                    return;
                }
                o.inc("whole_results_compared", 1);
            }
            Err(_) => o.inc("library_aborted", 1),
        }
    }
    o.inc("whole_runs", 1);
}
