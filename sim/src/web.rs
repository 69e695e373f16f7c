//! C22: histories of calls on solvers of the browser interface, against the library driven directly by the same
//! history in the same simulated environment, and against the reference model of the problem.
use crate::ga::{clock, crash};
use crate::inst::Inst;
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, Node, Problem, Vehicle};
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::{Context, Metaheuristic};
use hybridcvrp::utils::ProblemParser;
use serde_json::{json, Value};

const REAL: &[&str] = &["the browser interface and the hybridcvrp library behind it, built with the wasm feature from /repo's working tree"];
const STUB: &[&str] = &["wasm-bindgen, js-sys, console_error_panic_hook (native stand-ins: exported items stay Rust items, values handed to the browser keep their JSON text)", "clock (simulated)", "operating-system entropy and hash seeds (seeded)", "fastrand (same algorithm and stream, draws counted)", "heap (guarded, seed-filled) where the scenario says so"];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        gen,
        run,
        quick: 24000,
        thorough: 300000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = a history of calls (nodes, capacity, settings, load, step, clear, drop, move) on up to three solvers of the browser interface x clock x heap; what every step returns is judged against the reference model and against the library driven by the same history in the same environment; non-trivial: an improvement was returned",
        real: REAL,
        stub: STUB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let mut r = R::new(seed);
    let mut s = Scn::new("C22", "web", seed);
    clock(&mut r, &mut s.env);
    // the clock moves with the search only: how often either side reads it is its own affair
    s.env.per_read = 0;
    if i % 3 != 1 {
        s.env.per_draw = *r.pick(&[20u64, 1000]);
    }
    if r.p(0.1) {
        s.env.heap = r.u64() | 1;
    }
    let k = *r.pick(&[1u64, 1, 1, 2, 3]);
    let mut ops = vec![];
    for w in 0..k {
        small(&mut r, w, &mut ops);
    }
    for _ in 0..r.us(1, 5) {
        let w = r.range(0, k - 1);
        if r.p(0.9) {
            problem(&mut r, w, &mut ops);
        }
        for _ in 0..r.us(1, 6) {
            let w = if r.p(0.7) { w } else { r.range(0, k - 1) };
            match r.us(0, 12) {
                0 => ops.push(json!({"s": w, "op": "clear"})),
                1 => {
                    let o = setting(&mut r);
                    ops.push(json!({"s": w, "op": "set", "key": o.0, "v": o.1}))
                }
                2 => ops.push(json!({"s": w, "op": "move"})),
                3 => ops.push(json!({"s": w, "op": "nodes", "seed": r.range(0, 1_000_000), "n": r.range(1, 3)})),
                4 if r.p(0.3) => ops.push(json!({"s": w, "op": "new"})),
                5 => ops.push(json!({"s": w, "op": "load"})),
                _ => ops.push(json!({"s": w, "op": "steps", "k": *r.pick(&[1u64, 2, 5, 20, 40, 80])})),
            }
        }
        if r.p(0.4) {
            ops.push(json!({"s": w, "op": "clear"}));
        }
    }
    s.set("ops", json!(ops));
    s
}
/// sizes that let a history of a few steps see every phase
fn small(r: &mut R, w: u64, ops: &mut Vec<Value>) {
    let mut put = |k: &str, v: Value| ops.push(json!({"s": w, "op": "set", "key": k, "v": v}));
    put("min_population_size", json!(r.range(1, 8)));
    if r.p(0.95) {
        put("initial_individuals", json!(r.range(1, 12)));
    }
    put("generation_size", json!(r.range(1, 8)));
    if r.p(0.5) {
        put("number_of_elites", json!(r.range(0, 5)));
    }
    put("elite_gamma", json!(*r.pick(&[1.0, 5.0, 20.0])));
    if r.p(0.6) {
        put("time_limit", json!(1_000_000));
    }
    for _ in 0..r.us(0, 4) {
        let (k, v) = setting(r);
        put(k, v);
    }
}
fn setting(r: &mut R) -> (&'static str, Value) {
    match r.us(0, 12) {
        0 => ("time_limit", json!(*r.pick(&[0u64, 1, 2, 10, 60, 3600]))),
        1 => ("min_population_size", json!(r.range(1, 10))),
        2 => ("initial_individuals", json!(r.range(1, 15))),
        3 => ("generation_size", json!(r.range(1, 10))),
        4 => ("local_search_granularity", json!(*r.pick(&[1u64, 2, 5, 20]))),
        5 => ("number_of_elites", json!(r.range(0, 6))),
        6 => ("feasibility_proportion_target", json!(*r.pick(&[0.0, 0.2, 0.5, 0.9, 1.0]))),
        7 => ("rr_start_temp", json!(*r.pick(&[1.0, 10.0, 100.0]))),
        8 => ("rr_gamma", json!(*r.pick(&[0.3, 1.0, 2.0]))),
        9 => ("elite_start_temp", json!(*r.pick(&[2.0, 50.0]))),
        10 => ("elite_gamma", json!(*r.pick(&[1.0, 5.0, 20.0]))),
        _ => ("elite_education", json!(r.p(0.6))),
    }
}
fn problem(r: &mut R, w: u64, ops: &mut Vec<Value>) {
    let n = match r.us(0, 4) {
        0 if r.p(0.02) => r.range(150, 300),
        0 => r.range(1, 6),
        1 => r.range(4, 15),
        _ => r.range(8, 30),
    };
    let a = json!({"s": w, "op": "nodes", "seed": r.range(0, 1_000_000), "n": n});
    let b = json!({"s": w, "op": "cap", "k": *r.pick(&[1u64, 1, 2, 3, 4, 5, 6, 7, 8]), "f": *r.pick(&[1.0, 1.02, 1.1, 1.3, 2.0])});
    if r.p(0.1) {
        ops.push(json!({"s": w, "op": "cap", "k": r.range(1, 8), "f": 1.5}));
    }
    ops.push(a);
    if r.p(0.15) {
        ops.push(json!({"s": w, "op": "cap", "k": r.range(1, 8), "f": 1.0}));
    }
    ops.push(b);
    if r.p(0.95) {
        ops.push(json!({"s": w, "op": "load"}));
    }
}
/// one call
#[derive(Clone, Debug)]
enum Call {
    New,
    Clear,
    Node(usize, i32, i32, i32),
    Cap(i32),
    Set(String, f64),
    Load,
    Step,
    Move,
}
/// The calls of the history that make sense when they come: a problem is loaded when there is one, and only a
/// loaded one is stepped. Also tells the problem of each load.
fn calls(s: &Scn) -> Vec<(usize, Call)> {
    #[derive(Clone)]
    struct W {
        d: Vec<i32>,
        cap: bool,
        on: bool,
    }
    let mut ws = vec![W { d: vec![], cap: false, on: false }; 4];
    let mut out = vec![];
    for o in s.par.get("ops").and_then(|v| v.as_array()).cloned().unwrap_or_default() {
        let i = (o["s"].as_u64().unwrap_or(0) % 4) as usize;
        let w = &mut ws[i];
        match o["op"].as_str().unwrap_or("") {
            "new" => {
                *w = W { d: vec![], cap: false, on: false };
                out.push((i, Call::New));
            }
            "clear" => {
                *w = W { d: vec![], cap: false, on: false };
                out.push((i, Call::Clear));
            }
            "nodes" => {
                let mut r = R::new(o["seed"].as_u64().unwrap_or(0));
                let scale = *r.pick(&[3u64, 20, 100, 100, 1000, 1000, 1000, 1_000_000, 900_000_000]);
                let k = o["n"].as_u64().unwrap_or(1) + if w.d.is_empty() { 1 } else { 0 };
                let dm = *r.pick(&[1u64, 10, 100]);
                let off = if r.p(0.2) { scale as i32 / 2 } else { 0 };
                for _ in 0..k {
                    if w.d.len() >= 45 {
                        break;
                    }
                    let mut d = if w.d.is_empty() { 0 } else { r.range(1, dm) as i32 };
                    let (mut x, mut y) = (r.range(0, scale) as i32 - off, r.range(0, scale) as i32 - off);
                    if r.p(0.05) {
                        // once more the same place, or the same node
                        if let Some((_, Call::Node(_, d0, x0, y0))) = out.last() {
                            (x, y) = (*x0, *y0);
                            if r.p(0.5) && !w.d.is_empty() {
                                d = *d0;
                            }
                        }
                    }
                    w.d.push(d);
                    out.push((i, Call::Node(w.d.len(), d, x, y)));
                }
            }
            "cap" => {
                let total: i32 = w.d.iter().sum();
                let most = w.d.iter().cloned().max().unwrap_or(1).max(1);
                let k = o["k"].as_u64().unwrap_or(1).max(1) as f64;
                let c = (total as f64 / k * o["f"].as_f64().unwrap_or(1.0)).ceil() as i32;
                w.cap = true;
                out.push((i, Call::Cap(c.max(most))));
            }
            "set" => {
                let v = match &o["v"] {
                    Value::Bool(b) => *b as u64 as f64,
                    v => v.as_f64().unwrap_or(1.0),
                };
                out.push((i, Call::Set(o["key"].as_str().unwrap_or("").into(), v)));
            }
            "load" => {
                if w.cap && w.d.len() > 1 {
                    w.cap = false;
                    w.on = true;
                    out.push((i, Call::Load));
                }
            }
            "move" => out.push((i, Call::Move)),
            "steps" => {
                for _ in 0..o["k"].as_u64().unwrap_or(1).min(200) {
                    if w.on {
                        out.push((i, Call::Step));
                    }
                }
            }
            _ => {}
        }
    }
    out
}
/// a solver of the browser interface
type Web = hybridcvrp::Solver;
fn web(w: &mut Web, c: &Call) -> Option<Option<String>> {
    match c {
        Call::New => *w = Web::new(),
        Call::Clear => w.clear(),
        Call::Node(id, d, x, y) => w.add_node(*id, *d, *x, *y),
        Call::Cap(c) => w.add_capacity(*c),
        Call::Set(k, v) => match k.as_str() {
            "time_limit" => w.update_time_limit(*v as i32),
            "min_population_size" => w.update_min_population_size(*v as i32),
            "initial_individuals" => w.update_initial_individuals(*v as i32),
            "generation_size" => w.update_generation_size(*v as i32),
            "local_search_granularity" => w.update_local_search_granularity(*v as i32),
            "number_of_elites" => w.update_number_of_elites(*v as i32),
            "feasibility_proportion_target" => w.update_feasibility_proportion_target(*v),
            "rr_start_temp" => w.update_rr_start_temp(*v),
            "rr_gamma" => w.update_rr_gamma(*v),
            "elite_start_temp" => w.update_elite_start_temp(*v),
            "elite_gamma" => w.update_elite_gamma(*v),
            "elite_education" => w.update_elite_education(*v != 0.0),
            _ => {}
        },
        Call::Load => w.load_problem(),
        Call::Step => {
            let v = w.iterate();
            return Some(v.text().map(|t| t.to_string()));
        }
        Call::Move => {}
    }
    None
}
/// the library, driven directly
struct Lib {
    nodes: Vec<Node>,
    cap: f64,
    cfg: Config,
    run: Option<(Context, GeneticAlgorithm)>,
    best: f64,
}
impl Lib {
    fn new() -> Lib {
        Lib { nodes: vec![], cap: 0.0, cfg: Config::default(), run: None, best: f64::INFINITY }
    }
    fn call(&mut self, c: &Call) -> Option<Option<(Vec<Vec<usize>>, f64)>> {
        match c {
            Call::New => *self = Lib::new(),
            Call::Clear => {
                let cfg = self.cfg.clone();
                *self = Lib::new();
                self.cfg = cfg;
            }
            Call::Node(id, d, x, y) => self.nodes.push(Node { id: *id, coord: Coordinate { lng: *x as f64, lat: *y as f64 }, demand: *d as f64 }),
            Call::Cap(c) => self.cap = *c as f64,
            Call::Set(k, v) => {
                let c = &mut self.cfg;
                match k.as_str() {
                    "time_limit" => c.time_limit = *v as u64,
                    "min_population_size" => c.min_population_size = *v as u64,
                    "initial_individuals" => c.initial_individuals = *v as u64,
                    "generation_size" => c.population_lambda = *v as u64,
                    "local_search_granularity" => c.local_search_granularity = *v as u64,
                    "number_of_elites" => c.num_elites = *v as u64,
                    "feasibility_proportion_target" => c.feasibility_proportion_target = *v,
                    "rr_start_temp" => c.rr_start_temp = *v,
                    "rr_gamma" => c.rr_gamma = *v,
                    "elite_start_temp" => c.elite_education_start_temp = *v,
                    "elite_gamma" => c.elite_education_gamma = *v,
                    "elite_education" => c.elite_education = *v != 0.0,
                    _ => {}
                }
            }
            Call::Load => {
                let start = instant::Instant::now();
                let mut p = ProblemParser::new();
                p.problem = Some(Problem { nodes: self.nodes.clone(), vehicle: Vehicle { id: 0, cap: self.cap } });
                let ctx = Context::new(p, self.cfg.clone(), start);
                let ga = GeneticAlgorithm::new(&ctx);
                self.best = f64::INFINITY;
                self.run = Some((ctx, ga));
            }
            Call::Step => {
                if let Some((ctx, ga)) = self.run.as_mut() {
                    if !ga.terminated() {
                        ga.iterate(ctx);
                    }
                    let h = ctx.search_history.borrow();
                    if let Some(e) = h.last_entry() {
                        if e.solution.cost < self.best - 1e-6 {
                            self.best = e.solution.cost;
                            return Some(Some((e.solution.routes.clone(), e.solution.cost)));
                        }
                    }
                }
                return Some(None);
            }
            Call::Move => {}
        }
        None
    }
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let list = calls(s);
    let (a, st) = under(&s.env, s.budget, &[], || {
        let mut ws: Vec<Option<Box<Web>>> = (0..4).map(|_| Some(Box::new(Web::new()))).collect();
        let mut got = vec![];
        for (i, c) in &list {
            if let Call::Move = c {
                // another place in memory
                let w = ws[*i].take().unwrap();
                ws[*i] = Some(Box::new(*w));
            } else {
                let before = simhook::draws();
                let v = web(ws[*i].as_mut().unwrap(), c);
                outside(|| got.push((v, simhook::draws() - before)));
            }
        }
        outside(|| got)
    });
    account(&mut o, &s.env, &st);
    let got = match a {
        Ok(g) => g,
        Err(e) => {
            crash(s, &mut o, &e, "the browser interface");
            return o;
        }
    };
    let (b, st) = under(&s.env, s.budget, &[], || {
        let mut ws: Vec<Lib> = (0..4).map(|_| Lib::new()).collect();
        let mut want = vec![];
        for (i, c) in &list {
            if let Call::Move = c {
                continue;
            }
            let before = simhook::draws();
            let v = ws[*i].call(c);
            outside(|| want.push((v, simhook::draws() - before)));
        }
        outside(|| want)
    });
    account(&mut o, &s.env, &st);
    let want = match b {
        Ok(g) => g,
        Err(e) => {
            crash(s, &mut o, &e, "the library");
            return o;
        }
    };
    // what came back, step by step
    let mut h = H::new();
    let mut probs: Vec<Inst> = (0..4).map(|_| Inst { xy: vec![], d: vec![], cap: 0.0, lower: None, style: 0 }).collect();
    let mut loaded: Vec<Option<Inst>> = vec![None, None, None, None];
    let mut last = [f64::INFINITY; 4];
    let mut steps = [0u64; 4];
    for ((i, c), ((g, gd), (w, wd))) in list.iter().filter(|x| !matches!(x.1, Call::Move)).zip(got.iter().zip(want.iter())) {
        let i = *i;
        match c {
            Call::New | Call::Clear => {
                probs[i].xy.clear();
                probs[i].d.clear();
                loaded[i] = None;
            }
            Call::Node(_, d, x, y) => {
                probs[i].xy.push((*x as f64, *y as f64));
                probs[i].d.push(*d as f64);
            }
            Call::Cap(c) => probs[i].cap = *c as f64,
            Call::Load => {
                loaded[i] = Some(probs[i].clone());
                last[i] = f64::INFINITY;
                steps[i] = 0;
                o.inc("problems loaded", 1);
            }
            _ => {}
        }
        let (g, w) = match (g, w) {
            (Some(g), Some(w)) => (g, w),
            _ => continue,
        };
        steps[i] += 1;
        o.inc("steps", 1);
        let when = format!("solver {} step {}", i, steps[i]);
        let g: Option<(Vec<Vec<usize>>, f64)> = match g {
            None => None,
            Some(t) => match serde_json::from_str::<Value>(t).ok().and_then(|v| Some((serde_json::from_value(v.get("routes")?.clone()).ok()?, v.get("cost")?.as_f64()?))) {
                Some(x) => Some(x),
                None => {
                    o.v("value", format!("{}: the browser got {:?}, not routes and a cost", when, t));
                    return o;
                }
            },
        };
        if let Some((routes, cost)) = &g {
            o.nontrivial = true;
            o.inc("improvements returned", 1);
            h.f(*cost);
            let inst = loaded[i].as_ref().expect("loaded");
            if let Some(e) = inst.partition_err(routes).or_else(|| inst.overload_err(routes)) {
                o.v("invalid", format!("{}: the solution returned is not valid: {}", when, e));
            }
            let real = inst.cost(routes, true);
            if (real - cost).abs() > inst.tol_cost(real) {
                o.v("cost", format!("{}: the solution returned claims {} and measures {}", when, cost, real));
            }
            if *cost >= last[i] {
                o.v("again", format!("{}: returned {} after {}", when, cost, last[i]));
            }
            last[i] = *cost;
        }
        let brief = |x: &Option<(Vec<Vec<usize>>, f64)>| x.as_ref().map(|v| v.1);
        if g != *w {
            o.v("differs", format!("{}: returned {:?}, the library's improvement is {:?}{}", when, brief(&g), brief(w), if brief(&g) == brief(w) { " (other routes)" } else { "" }));
        } else if gd != wd {
            o.v("work", format!("{}: made {} random draws, the library makes {}", when, gd, wd));
        }
        h.add(*gd);
        if o.viol.is_some() {
            break;
        }
    }
    o.trace = h.0;
    o
}
