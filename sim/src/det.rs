//! C06 (determinism), C11 (memory), C15 (independence of solvers).
use crate::appx::{launch, library, workdir, yaml, Launch};
use crate::ga::{base, clock};
use crate::heap;
use crate::inst::{self, Inst, Kind};
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::{Context, Metaheuristic, Solver};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            gen: gen_c06,
            run: run_c06,
            quick: 5500,
            thorough: 160000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = deterministic run (plain, decomposed, whole program) executed under two unrelated environments (clock script, entropy, heap contents, chunked input), and once more cut by a deadline at a random place; non-trivial: at least one improvement was reported and the environments differ",
            real: REAL_LIB,
            stub: STUB_LIB,
        },
        Prop {
            id: "C11",
            gen: gen_c11,
            run: run_c11,
            quick: 5000,
            thorough: 160000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = one run executed on two guarded heaps with different garbage (canaries around every block, filled when allocated and when freed): equal trajectories, no canary hit; or the whole program with allocation failures at chosen points: it must stop; non-trivial: a generation was completed, or an allocation failed",
            real: REAL_LIB,
            stub: STUB_LIB,
        },
        Prop {
            id: "C15",
            gen: gen_c15,
            run: run_c15,
            quick: 3000,
            thorough: 60000,
            crash_counts: false,
            level: "exploration",
            rule: "a scenario = two to four deterministic solvers (plain or decomposed, with different instances and settings) run alone and then interleaved under a random schedule of create, step, move and drop operations; non-trivial: at least two solvers were alive and stepped in alternation and something was reported",
            real: REAL_LIB,
            stub: STUB_LIB,
        },
    ]
}

// ------------------------------------------------------------------ one observed run
#[derive(Clone, PartialEq, Debug, Default)]
struct Seen {
    costs: Vec<u64>,
    routes: Vec<Vec<usize>>,
    draws: u64,
    steps: u64,
    /// reported improvements and draws after every step
    path: Vec<(usize, u64)>,
    term: bool,
    end: Option<String>,
}
enum Any {
    Plain(GeneticAlgorithm),
    Dec(DecomposedGeneticAlgorithm),
}
impl Metaheuristic for Any {
    fn iterate(&mut self, ctx: &Context) {
        match self {
            Any::Plain(g) => g.iterate(ctx),
            Any::Dec(g) => g.iterate(ctx),
        }
    }
    fn terminated(&self) -> bool {
        match self {
            Any::Plain(g) => g.terminated(),
            Any::Dec(g) => g.terminated(),
        }
    }
}
fn make(s: &Scn, ctx: &Context) -> Any {
    if s.b("dec") {
        Any::Dec(DecomposedGeneticAlgorithm::new(ctx))
    } else {
        Any::Plain(GeneticAlgorithm::new(ctx))
    }
}
fn observe(s: &Scn, e: &Env, limit: Option<u64>, o: &mut Out) -> Seen {
    let path = write_instance(s);
    let mut x = Seen::default();
    let mut t = s.clone();
    if let Some(l) = limit {
        t.c("time_limit", json!(l));
    }
    let (r, st) = under(e, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(&t);
        let mut ga = make(&t, &ctx);
        for k in 0..s.steps {
            ga.iterate(&ctx);
            let stop = outside(|| {
                let h = ctx.search_history.borrow();
                let es = h.entries();
                for en in es.iter().skip(x.costs.len()) {
                    x.costs.push(en.solution.cost.to_bits());
                }
                if let Some(l) = es.last() {
                    x.routes = l.solution.routes.clone();
                }
                x.steps = k + 1;
                x.draws = simhook::draws();
                x.path.push((es.len(), x.draws));
                x.term = ga.terminated();
                x.term
            });
            if stop {
                break;
            }
        }
        drop(ga);
        drop(ctx);
    });
    account(o, e, &st);
    match r {
        Ok(()) => {}
        Err(End::Panic(m)) => x.end = Some(format!("panic: {}", m)),
        Err(_) => x.end = Some("draw budget".into()),
    }
    x
}
fn costs(v: &[u64]) -> Vec<f64> {
    v.iter().map(|b| f64::from_bits(*b)).collect()
}
/// where two cost sequences part
fn part(a: &Seen, b: &Seen) -> String {
    let k = a.costs.iter().zip(&b.costs).take_while(|(x, y)| x == y).count();
    let f = |v: &Seen| {
        let w: Vec<f64> = costs(&v.costs);
        w.iter().skip(k).take(3).map(|c| c.to_string()).collect::<Vec<_>>().join(", ")
    };
    format!("after {} equal improvements: [{}...] ({} in all) against [{}...] ({} in all)", k, f(a), a.costs.len(), f(b), b.costs.len())
}
fn digest(x: &Seen) -> u64 {
    let mut h = H::new();
    for c in &x.costs {
        h.add(*c);
    }
    for (a, b) in &x.path {
        h.add(*a as u64);
        h.add(*b);
    }
    h.0 | 1
}

// ------------------------------------------------------------------ C06
fn chunking(r: &mut R, e: &mut Env, class: u8) {
    if r.p(0.4) {
        e.faults.push(Fault { class, op: 1, kind: simhook::K_RAND, at: 0, arg: r.range(1, 200), count: u64::MAX });
        if r.p(0.5) {
            e.faults.push(Fault { class, op: 1, kind: simhook::K_EINTR, at: r.range(0, 5), arg: 0, count: r.range(1, 4) });
        }
    }
}
fn gen_c06(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 40 == 7 {
        // whole program
        let (mut r, mut s) = base("C06", seed, *R::new(seed).pick(&[Kind::Feasible, Kind::Any, Kind::Tight]), 30);
        s.kind = "app".into();
        s.c("deterministic", json!(true));
        s.c("max_iterations", json!(r.range(1, 40)));
        s.c("initial_individuals", json!(r.range(1, 12)));
        s.env2 = Some(other(&mut r, &s));
        s.env.heap = 0;
        s.env2.as_mut().unwrap().heap = 0;
        return s;
    }
    #[cfg(feature = "dec")]
    if i % 30 == 11 {
        let mut s = crate::dec::gen_seen("C06", seed);
        let mut r = R::new(seed ^ 5);
        s.env2 = Some(other(&mut r, &s));
        return s;
    }
    if i % 200 == 53 {
        let mut s = crate::drun::gen("C06", seed);
        let mut r = R::new(seed ^ 5);
        s.kind = "pair".into();
        s.set("dec", json!(true));
        s.c("deterministic", json!(true));
        s.c("time_limit", json!(1_000_000));
        s.env.events.clear();
        s.env.per_draw = 1000;
        s.steps = r.range(3, 30);
        s.env2 = Some(other(&mut r, &s));
        s.set("cut", json!(r.range(0, 1000)));
        return s;
    }
    let kind = [Kind::Any, Kind::Feasible, Kind::Tight, Kind::Edge][(i % 4) as usize];
    let (mut r, mut s) = base("C06", seed, kind, 50);
    s.kind = "pair".into();
    s.c("deterministic", json!(true));
    s.c("elite_education_time_based", json!(false));
    if i % 3 == 0 {
        s.c("max_iterations_without_improvement", json!(r.range(0, 8)));
    }
    chunking(&mut r, &mut s.env, simhook::INSTANCE);
    s.env2 = Some(other(&mut r, &s));
    if r.p(0.5) {
        s.set("cut", json!(r.range(0, 1000)));
    }
    s
}
fn other(r: &mut R, s: &Scn) -> Env {
    let mut e = Env::default();
    clock(r, &mut e);
    e.seed = r.u64();
    e.base = r.range(1, 1 << 50);
    if r.p(0.4) {
        // a good part of the time allowed goes by, in stalls, without the deadline being reached
        let limit = s.cfg.get("time_limit").and_then(|v| v.as_u64()).unwrap_or(1_000_000) * 1_000_000_000;
        let mut left = limit / 100 * 85;
        for _ in 0..r.us(1, 4) {
            let jump = (left as f64 * *r.pick(&[0.01, 0.1, 0.3, 0.6, 0.9, 1.0])) as u64;
            left -= jump.min(left);
            let on_read = r.p(0.5);
            let top = 10u64.pow(r.us(1, 4) as u32);
            let at = if on_read { r.range(2, top) } else { 10u64.pow(r.us(1, 6) as u32) * r.range(1, 10) };
            e.events.push(Ev { on_read, at, jump, rate: -1 });
        }
        e.events.sort_by_key(|x| x.at);
    }
    if r.p(0.4) {
        e.heap = r.u64() | 1;
    }
    chunking(r, &mut e, simhook::INSTANCE);
    e
}
fn run_c06(s: &Scn) -> Out {
    let mut o = Out::default();
    if s.kind == "app" {
        return app_pair(s);
    }
    #[cfg(feature = "dec")]
    if s.kind == "chain" {
        let e2 = s.env2.clone().unwrap_or_default();
        let a = crate::dec::chain_seen(s, &s.env, &mut o);
        let b = crate::dec::chain_seen(s, &e2, &mut o);
        if a.2.is_some() && b.2.is_some() {
            o.aborted = a.2;
            return o;
        }
        let mut h = H::new();
        a.0.iter().flatten().for_each(|c| h.add(*c));
        a.1.iter().flatten().flatten().for_each(|c| h.add(*c as u64));
        o.trace = h.0 | 1;
        if a.2 != b.2 {
            o.v("crash", format!("one of two equal chains of decompositions failed: {:?} / {:?}", a.2, b.2));
        } else if let Some(k) = (0..a.0.len()).find(|&k| a.0[k] != b.0[k]) {
            o.v("sub-costs", format!("decomposition {}: the same solution cut with the same seed gives a sub-search that reports {:?} and one that reports {:?}", k, costs(&a.0[k]), costs(&b.0[k])));
        } else if let Some(k) = (0..a.1.len()).find(|&k| a.1[k] != b.1[k]) {
            o.v("sub-routes", format!("decomposition {}: the same solution cut with the same seed is {:?} after the merge in one run and {:?} in the other", k, a.1[k], b.1[k]));
        }
        o.inc("decompositions_compared", a.1.len() as u64);
        o.nontrivial = a.0.iter().any(|c| !c.is_empty());
        return o;
    }
    let e2 = s.env2.clone().unwrap_or_default();
    let a = observe(s, &s.env, None, &mut o);
    let b = observe(s, &e2, None, &mut o);
    // a failure of the run is another property's matter, but it too must not depend on the environment
    if a.end.is_some() && b.end.is_some() {
        o.aborted = a.end.clone();
        o.trace = digest(&a);
        return o;
    }
    if a.end != b.end {
        o.v("crash", format!("one of two equal runs failed: {:?} / {:?}", a.end, b.end));
        return o;
    }
    if a.costs != b.costs {
        o.v("costs", format!("two runs with the same instance, settings and seed report different improvements, {}", part(&a, &b)));
    } else if a.routes != b.routes {
        o.v("routes", format!("two runs with the same instance, settings and seed end with different routes: {:?} / {:?}", a.routes, b.routes));
    } else if a.path.iter().map(|p| p.0).collect::<Vec<_>>() != b.path.iter().map(|p| p.0).collect::<Vec<_>>() {
        o.v("steps", "two runs with the same instance, settings and seed report their improvements at different steps".into());
    }
    o.nontrivial = !a.costs.is_empty();
    o.inc("improvements_compared", a.costs.len() as u64);
    if o.viol.is_none() && s.par.contains_key("cut") && a.draws > 0 {
        // the same run with its deadline somewhere inside
        let mut e = e2.clone();
        e.events.clear();
        e.per_draw = 0;
        e.per_read = 0;
        let at = (a.draws * s.u("cut") / 1000).max(1);
        e.events.push(Ev { on_read: false, at, jump: 20_000_000_000, rate: 0 });
        let c = observe(s, &e, Some(10), &mut o);
        if c.end.is_none() {
            o.inc("cut_runs", 1);
            if c.costs.len() > a.costs.len() || c.costs[..] != a.costs[..c.costs.len()] {
                o.v("prefix", format!("a run cut by its deadline at draw {} does not report a prefix of the longer run's improvements, {}", at, part(&c, &a)));
            } else {
                // everything reported in steps that ended before the deadline is there
                let sure = a.path.iter().filter(|p| p.1 < at).map(|p| p.0).max().unwrap_or(0);
                if c.costs.len() < sure {
                    o.v("prefix", format!("a run cut by its deadline at draw {} reports {} improvements where the longer run had {} by then", at, c.costs.len(), sure));
                }
            }
        }
    }
    let mut h = H::new();
    h.add(digest(&a));
    h.add(b.draws);
    o.trace = h.0 | 1;
    o
}
fn app_pair(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let out = wd.join("output.sol");
    let mut res: Vec<(Option<i32>, Option<Vec<u8>>, Vec<String>)> = vec![];
    let mut tr = H::new();
    let lib = library(s, &s.env);
    for e in [&s.env, s.env2.as_ref().unwrap_or(&s.env)] {
        let _ = std::fs::remove_file(&out);
        let mut l = Launch::new("DST_APP", &wd, e);
        l.args = vec!["inst.vrp".into()];
        l.paths = vec![(simhook::INSTANCE, "inst.vrp".into()), (simhook::CONFIG, "config.yml".into())];
        l.budget = s.budget;
        let r = launch(l);
        r.account(&mut o, e);
        tr.add(r.draws);
        // the improvements as logged (without their times)
        let log: Vec<String> = String::from_utf8_lossy(&r.stderr).lines().filter_map(|l| l.find("New best").map(|p| l[p..].to_string())).collect();
        res.push((r.code, std::fs::read(&out).ok(), log));
    }
    if res[0].0 == Some(97) || res[1].0 == Some(97) {
        o.aborted = Some("draw budget".into());
        return o;
    }
    if res[0] != res[1] {
        o.v("program", format!("the program gave different results in two environments: exit {:?} / {:?}, improvements {:?} / {:?}", res[0].0, res[1].0, res[0].2, res[1].2));
    } else if let Ok(l) = lib {
        if res[0].0 == Some(0) && res[0].1.as_deref() != Some(l.file.as_bytes()) {
            o.v("program", "the program and the library found different final solutions with the same instance, settings and seed".into());
        }
    }
    o.nontrivial = !res[0].2.is_empty() || res[0].1.as_ref().map_or(false, |f| !f.is_empty());
    o.inc("program_pairs", 1);
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C11
fn gen_c11(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 16 == 9 {
        let mut r = R::new(seed);
        let kind = *r.pick(&[Kind::Feasible, Kind::Any, Kind::Edge]);
        let (_, mut s) = base("C11", seed, kind, 25);
        s.kind = "alloc".into();
        s.c("deterministic", json!(true));
        s.c("max_iterations", json!(r.range(1, 6)));
        s.c("initial_individuals", json!(r.range(1, 8)));
        if s.cb("elite_education", false) {
            s.c("elite_education_gamma", json!(2.0));
        }
        s.env.heap = 0;
        s.env.events.clear();
        let ks: Vec<Value> = (0..r.us(6, 14)).map(|_| {
            json!({"at": r.f(), "log": r.p(0.5), "count": if r.p(0.3) { u64::MAX } else { 1 }, "min": *r.pick(&[0u64, 0, 0, 64, 256, 1024, 4096])})
        }).collect();
        s.set("subs", json!(ks));
        return s;
    }
    if i % 200 == 53 {
        let mut s = crate::drun::gen("C11", seed);
        let mut r = R::new(seed ^ 5);
        s.kind = "heap".into();
        s.set("dec", json!(true));
        s.c("time_limit", json!(1_000_000));
        s.env.events.clear();
        s.env.per_draw = 1000;
        s.steps = r.range(3, 20);
        s.env.heap = r.u64() | 1;
        s.set("heap2", json!(r.u64() >> 1 | 1));
        return s;
    }
    let kind = [Kind::Any, Kind::Feasible, Kind::Edge, Kind::Tight, Kind::Loose][(i % 5) as usize];
    let (mut r, mut s) = base("C11", seed, kind, 60);
    s.kind = "heap".into();
    if i % 50 == 22 || i % 400 == 61 {
        let wide = i % 400 == 61;
        crate::ga::fleet(&mut r, &mut s, wide);
        s.env.heap = r.u64() | 1;
        s.set("heap2", json!(r.u64() >> 1 | 1));
        return s;
    }
    if i % 6 == 1 {
        let n = r.us(1, 5);
        let rounded = s.rounded();
        s.inst = Some(inst::gen(&mut r, n, Kind::Edge, rounded));
    }
    if r.p(0.3) {
        let n = s.inst().n() as u64;
        s.c("precompute_distance_size_limit", json!(r.range(0, n + 2)));
    }
    s.env.heap = r.u64() | 1;
    s.set("heap2", json!(r.u64() >> 1 | 1));
    s.steps = s.steps.min(80);
    s
}
fn run_c11(s: &Scn) -> Out {
    let mut o = Out::default();
    if s.kind == "alloc" {
        return alloc(s);
    }
    heap::damaged();
    let a = observe(s, &s.env, None, &mut o);
    let d = heap::damaged();
    let mut e2 = s.env.clone();
    e2.heap = s.u("heap2") | 1;
    let b = observe(s, &e2, None, &mut o);
    let d2 = heap::damaged();
    o.trace = digest(&a);
    if d.0 + d2.0 > 0 {
        o.v("overwrite", format!("a run wrote outside the memory it owns: next to a block of {} bytes", d.1.max(d2.1)));
        return o;
    }
    if a.end.is_some() && b.end.is_some() {
        o.aborted = a.end.clone();
        return o;
    }
    if a != b {
        let w = if a.end != b.end {
            format!("one failed: {:?} / {:?}", a.end, b.end)
        } else if a.costs != b.costs {
            part(&a, &b)
        } else {
            let k = a.path.iter().zip(&b.path).take_while(|(x, y)| x == y).count();
            format!("they part at step {}", k)
        };
        o.v("garbage", format!("two runs that differ only in the contents of memory they do not own differ: {}", w));
    }
    o.nontrivial = a.steps > 2;
    o.fault("heap_garbage", 2);
    o
}
fn alloc(s: &Scn) -> Out {
    let mut o = Out::default();
    let wd = workdir();
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let out = wd.join("output.sol");
    let run = |a: (u64, u64, u64)| {
        let _ = std::fs::remove_file(&out);
        let mut l = Launch::new("DST_APP", &wd, &s.env);
        l.args = vec!["inst.vrp".into()];
        l.budget = s.budget;
        l.alloc = a;
        l.paths = vec![(simhook::INSTANCE, "inst.vrp".into())];
        launch(l)
    };
    let mut tr = H::new();
    let subs: Vec<Value> = s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let mut base: std::collections::BTreeMap<u64, u64> = Default::default();
    let mut f0 = vec![];
    for sub in &subs {
        let min = sub["min"].as_u64().unwrap_or(0);
        if !base.contains_key(&min) {
            let r = run((0, 1, min));
            r.account(&mut o, &s.env);
            if !r.ok() {
                o.aborted = Some(format!("undisturbed run: {} {}", r.how(), r.tail()));
                return o;
            }
            base.insert(min, r.allocs);
            f0 = std::fs::read(&out).unwrap_or_default();
        }
        let total = base[&min];
        let lo = 1;
        if total <= lo {
            continue;
        }
        let x = sub["at"].as_f64().unwrap_or(0.5);
        let at = if sub["log"].as_bool() == Some(true) { lo as f64 * (total as f64 / lo as f64).powf(x) } else { lo as f64 + x * (total - lo) as f64 };
        let at = (at as u64).clamp(lo, total);
        let r = run((at, sub["count"].as_u64().unwrap_or(1), min));
        r.account(&mut o, &s.env);
        o.fault("allocation_failure", 1);
        o.nontrivial = true;
        tr.add(at);
        tr.add(r.code.unwrap_or(1000 + r.signal.unwrap_or(0)) as u64);
        let file = std::fs::read(&out).unwrap_or_default();
        let desc = format!("allocation {} of {} (of at least {} bytes) failed", at, total, min);
        if r.timeout || r.hang || r.code == Some(97) {
            o.v("alloc-hang", format!("{} and the run did not end", desc));
            return o;
        }
        if r.ok() && r.alloc_failures == 0 {
            // did not come to it
            o.inc("not_reached", 1);
            continue;
        }
        if r.ok() {
            o.v("alloc-ignored", format!("{} and the run went on to success", desc));
            return o;
        }
        if r.signal == Some(libc::SIGSEGV) || r.signal == Some(libc::SIGBUS) {
            o.v("alloc-segv", format!("{} and the run used the memory it did not get (signal {})", desc, r.signal.unwrap()));
            return o;
        }
        if !file.is_empty() && file == f0 {
            o.v("alloc-solution", format!("{} and the run still produced a solution", desc));
            return o;
        }
        o.inc("stopped", 1);
    }
    tr.add(s.seed);
    o.trace = tr.0 | 1;
    o
}

// ------------------------------------------------------------------ C15
fn gen_c15(i: u64, seed: u64, _t: bool) -> Scn {
    let mut r = R::new(seed);
    let mut s = Scn::new("C15", "multi", seed);
    let k = r.us(2, 5);
    let mut subs = vec![];
    for j in 0..k {
        let mut t = Scn::new("C15", "ga", r.u64());
        let kind = *r.pick(&[Kind::Any, Kind::Feasible, Kind::Tight, Kind::Edge]);
        let dec = i % 60 == 31 && j == 0;
        let n = if dec { r.us(2, 7) } else { r.us(2, 22) };
        gen_cfg(&mut r, &mut t, n);
        t.c("deterministic", json!(true));
        t.c("elite_education_time_based", json!(false));
        if r.p(0.4) {
            t.c("elite_education", json!(true));
            t.c("elite_education_problem_size_limit", json!(1));
            t.c("elite_education_gamma", json!(*r.pick(&[5.0, 40.0])));
        }
        if r.p(0.3) {
            t.c("max_iterations_without_improvement", json!(r.range(0, 10)));
        }
        if dec {
            t.cfg.remove("elite_education");
            t.c("average_ruin_cardinality", json!(2));
            t.c("max_ruin_string_length", json!(2));
            t.c("decomposed_problem_min_size", json!(*r.pick(&[2u64, 3, 200])));
            t.set("dec", json!(true));
        }
        if j > 0 && r.p(0.2) {
            // same settings as the one before
            let p: &Scn = subs.last().unwrap();
            t.cfg = p.cfg.clone();
            t.inst = p.inst.clone();
            if !p.b("dec") {
                subs.push(t);
                continue;
            }
        }
        // another instance of the size of the one before, perhaps with its settings
        let mut n = n;
        if j > 0 && r.p(0.4) {
            let p: &Scn = subs.last().unwrap();
            if !p.b("dec") && !dec {
                n = p.inst().n();
                if r.p(0.5) {
                    t.cfg = p.cfg.clone();
                }
            }
        }
        let rounded = t.rounded();
        t.inst = Some(inst::gen(&mut r, n, kind, rounded));
        subs.push(t);
    }
    // [operation, solver, argument]: 0 create, 1 step, 2 drop, 3 move, 4 grow the vector
    let mut ops: Vec<Value> = vec![];
    let late = r.p(0.5);
    for j in 0..k {
        if !late || j == 0 {
            ops.push(json!([0, j, 0]));
        }
    }
    for _ in 0..r.us(20, 120) {
        let j = r.us(0, k);
        match r.us(0, 30) {
            0 => ops.push(json!([2, j, 0])),
            1 | 2 => ops.push(json!([0, j, 0])),
            3 | 4 | 5 => ops.push(json!([3, j, r.us(0, 3)])),
            6 => ops.push(json!([4, j, r.us(1, 6)])),
            _ => ops.push(json!([1, j, r.us(1, 4)])),
        }
    }
    s.set("subs_", json!(subs));
    s.set("ops", json!(ops));
    s.env.seed = r.u64();
    clock(&mut r, &mut s.env);
    if r.p(0.5) {
        s.env.heap = r.u64() | 1;
    }
    s.budget = 200_000_000;
    s
}
/// run something in a copy of this process, so that nothing a process keeps passes from one run to
/// another; None: the copy died
fn in_copy<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, String> {
    use std::io::{Read, Write};
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err("harness: pipe".into());
        }
        match libc::fork() {
            -1 => Err("harness: fork".into()),
            0 => {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                crate::orch::arm_copy();
                let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                simhook::set_active(false);
                heap::off();
                let code = match t {
                    Ok(v) => {
                        let text = serde_json::to_vec(&v).unwrap_or_default();
                        let mut w = std::fs::File::from_raw_fd(fds[1]);
                        if w.write_all(&text).is_ok() { 0 } else { 95 }
                    }
                    Err(_) => 96,
                };
                libc::_exit(code)
            }
            pid => {
                libc::close(fds[1]);
                let mut text = vec![];
                let mut rd = std::fs::File::from_raw_fd(fds[0]);
                let _ = rd.read_to_end(&mut text);
                let mut st = 0;
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                    serde_json::from_slice(&text).map_err(|e| format!("harness: {}", e))
                } else if libc::WIFSIGNALED(st) {
                    Err(format!("signal {}", libc::WTERMSIG(st)))
                } else if libc::WEXITSTATUS(st) == 98 {
                    Err("no progress".into())
                } else {
                    Err(format!("exit {}", libc::WEXITSTATUS(st)))
                }
            }
        }
    }
}
/// what a solver has reported
#[derive(Clone, PartialEq, Default, serde::Serialize, serde::Deserialize)]
struct Rep {
    costs: Vec<u64>,
    last: Vec<Vec<usize>>,
    term: bool,
}
fn rep(x: &Solver<Any>) -> Rep {
    let h = x.ctx.search_history.borrow();
    Rep { costs: h.entries().iter().map(|e| e.solution.cost.to_bits()).collect(), last: h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(), term: x.metaheuristic.terminated() }
}
fn fresh(t: &Scn, path: &std::path::Path) -> Solver<Any> {
    let mut cfg = config(t);
    cfg.instance_path = path.to_string_lossy().into_owned();
    let start = instant::Instant::now();
    let mut parser = hybridcvrp::utils::ProblemParser::new();
    parser.parse(&mut cfg);
    let ctx = Context::new(parser, cfg, start);
    let m = make(t, &ctx);
    Solver::new(ctx, m)
}
fn run_c15(s: &Scn) -> Out {
    let mut o = Out::default();
    let subs: Vec<Scn> = serde_json::from_value(s.par.get("subs_").cloned().unwrap_or(json!([]))).unwrap_or_default();
    let ops: Vec<(u64, usize, u64)> = serde_json::from_value(s.par.get("ops").cloned().unwrap_or(json!([]))).unwrap_or_default();
    let paths: Vec<std::path::PathBuf> = subs
        .iter()
        .enumerate()
        .map(|(j, t)| {
            let p = scratch().join(format!("inst{}.vrp", j));
            std::fs::write(&p, t.inst().text()).expect("scratch");
            p
        })
        .collect();
    // how far each gets between two creations
    let mut need = vec![0u64; subs.len()];
    let mut cur = vec![None::<u64>; subs.len()];
    for (op, j, a) in &ops {
        if *j >= subs.len() {
            continue;
        }
        match op {
            0 => cur[*j] = Some(0),
            1 => {
                if let Some(c) = &mut cur[*j] {
                    *c += a;
                    need[*j] = need[*j].max(*c);
                }
            }
            2 => cur[*j] = None,
            _ => {}
        }
    }
    // each alone, in a process that has run no other
    let mut solo: Vec<Vec<Rep>> = vec![];
    for (j, t) in subs.iter().enumerate() {
        let mut e = Env::default();
        e.seed = t.seed;
        let got = in_copy(|| {
            let mut o = Out::default();
            let mut v = vec![];
            let (r, st) = under(&e, s.budget, &[], || {
                let mut x = fresh(t, &paths[j]);
                outside(|| v.push(rep(&x)));
                for _ in 0..need[j] {
                    x.metaheuristic.iterate(&x.ctx);
                    outside(|| v.push(rep(&x)));
                }
                drop(x);
            });
            account(&mut o, &e, &st);
            match &r {
                Err(End::Panic(m)) => o.aborted = Some(format!("alone: panic: {}", m)),
                Err(_) => o.aborted = Some("alone: draw budget".into()),
                Ok(()) => {}
            }
            (o, v)
        });
        match got {
            Ok((p, v)) => {
                o.absorb(&p);
                if o.aborted.is_some() {
                    return o;
                }
                solo.push(v);
            }
            Err(m) => {
                o.aborted = Some(format!("alone: {}", m));
                return o;
            }
        }
    }
    match in_copy(|| together(s, &subs, &ops, &paths, &solo)) {
        Ok(p) => o.absorb(&p),
        Err(m) if m.starts_with("harness") => o.aborted = Some(m),
        Err(m) => o.v("crash", format!("solvers that ran alone without failing failed together: {}", m)),
    }
    o
}
fn together(s: &Scn, subs: &[Scn], ops: &[(u64, usize, u64)], paths: &[std::path::PathBuf], solo: &[Vec<Rep>]) -> Out {
    let mut o = Out::default();
    // together
    let mut tr = H::new();
    let mut viol: Option<(String, String)> = None;
    let (mut alternations, mut last, mut moves, mut reported) = (0u64, usize::MAX, 0u64, 0usize);
    let (r, st) = under(&s.env, s.budget, &[], || {
        let mut xs: Vec<Option<Solver<Any>>> = vec![];
        let mut at: Vec<u64> = vec![0; subs.len()];
        for _ in 0..subs.len() {
            xs.push(None);
        }
        // position of each solver in the vector
        let mut pos: Vec<usize> = (0..subs.len()).collect();
        for (k, (op, j, a)) in ops.iter().enumerate() {
            let j = *j;
            if j >= subs.len() {
                continue;
            }
            match op {
                0 => {
                    xs[pos[j]] = None;
                    xs[pos[j]] = Some(fresh(&subs[j], &paths[j]));
                    at[j] = 0;
                }
                1 => {
                    if let Some(x) = xs[pos[j]].as_mut() {
                        if last != j {
                            alternations += 1;
                            last = j;
                        }
                        for _ in 0..*a {
                            x.metaheuristic.iterate(&x.ctx);
                            at[j] += 1;
                            let stop = outside(|| {
                                let got = rep(x);
                                let want = &solo[j][at[j] as usize];
                                reported = reported.max(got.costs.len());
                                tr.add(got.costs.len() as u64);
                                if got != *want {
                                    let c = got.costs.iter().zip(&want.costs).take_while(|(x, y)| x == y).count();
                                    viol = Some((
                                        "influenced".into(),
                                        format!(
                                            "operation {}: after its step {} solver {} has reported {:?}, alone it reports {:?} ({} equal, ended {} / {})",
                                            k,
                                            at[j],
                                            j,
                                            costs(&got.costs).iter().rev().take(3).collect::<Vec<_>>(),
                                            costs(&want.costs).iter().rev().take(3).collect::<Vec<_>>(),
                                            c,
                                            got.term,
                                            want.term
                                        ),
                                    ));
                                }
                                viol.is_some()
                            });
                            if stop {
                                return;
                            }
                        }
                    }
                }
                2 => xs[pos[j]] = None,
                3 => {
                    moves += 1;
                    match a {
                        0 => {
                            // through a box and back
                            if let Some(x) = xs[pos[j]].take() {
                                let b = Box::new(x);
                                let junk = vec![0x55u8; std::mem::size_of::<Solver<Any>>()];
                                std::hint::black_box(&junk);
                                xs[pos[j]] = Some(*b);
                            }
                        }
                        1 => {
                            // places exchanged with the next one
                            let i = (j + 1) % subs.len();
                            xs.swap(pos[i], pos[j]);
                            pos.swap(i, j);
                        }
                        _ => {
                            // taken apart and put together again
                            if let Some(x) = xs[pos[j]].take() {
                                let Solver { ctx, metaheuristic } = x;
                                let m = Box::new(metaheuristic);
                                let c = Box::new(ctx);
                                xs[pos[j]] = Some(Solver::new(*c, *m));
                            }
                        }
                    }
                }
                _ => {
                    for _ in 0..*a {
                        xs.push(None);
                    }
                    // everything moves
                    let ys: Vec<Option<Solver<Any>>> = xs.drain(..).collect();
                    xs = Vec::with_capacity(ys.len() * 2);
                    xs.extend(ys);
                }
            }
        }
    });
    account(&mut o, &s.env, &st);
    match r {
        Err(End::Panic(m)) => o.v("crash", format!("solvers that ran alone without failing failed together: {}", m)),
        Err(_) => o.aborted = Some("draw budget".into()),
        Ok(()) => {}
    }
    if let Some((k, m)) = viol {
        o.v(&k, m);
    }
    let d = heap::damaged();
    if d.0 > 0 {
        o.v("overwrite", format!("solvers run together wrote outside the memory they own: next to a block of {} bytes", d.1));
    }
    o.nontrivial = alternations > 3 && reported > 0;
    o.inc("moves", moves);
    o.inc("alternations", alternations);
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o
}
#[allow(dead_code)]
fn unused(_: &Inst) {}
