//! The genetic search stepped under the simulator, with all monitors of a plain run.
use crate::inst::{self, Inst, Kind};
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, SubPopulation};
use hybridcvrp::solver::improvement::{Recreate, Ruin, RuinRecreateSolution};
use hybridcvrp::solver::{Context, Metaheuristic, Solver};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    let b = |id, gen, quick, thorough, crash, rule| Prop {
        id,
        gen,
        run: run_ga,
        quick,
        thorough,
        crash_counts: crash,
        level: "exploration",
        rule,
        real: REAL_LIB,
        stub: STUB_LIB,
    };
    vec![
        b("C01", gen_c01, 30000, 250000, false, "a scenario = random instance x random configuration x clock script x seed; the search is stepped and every reported solution is checked right after it is reported; non-trivial: at least one solution was reported"),
        b("C02", gen_c02, 40000, 300000, false, "as C01 with every metric (rounded or not, explicit matrix, precomputed or lazy); non-trivial: at least one reported cost was compared with the reference length"),
        b("C03", gen_c03, 24000, 200000, false, "as C01 with restarts, elite education and penalty changes forced often; non-trivial: at least two improvements were reported or a restart happened after one"),
        b("C04", gen_c04, 10000, 80000, false, "deadline at a random place (by clock rate, jumps on draws or on clock reads, stalls), budgets, zero limits; stepped runs, Solver::run and the same for decomposed runs; non-trivial: the run was ended by its deadline or its budget after doing some work, or had limit zero"),
        b("C05", gen_c05, 50000, 400000, false, "small restart thresholds and budgets; a counter model is stepped next to the search; non-trivial: a restart or the end of the budget was reached"),
        b("C10", gen_c10, 50000, 400000, true, "edge instances (1 and 2 customers, coincident points, zero demands, tight, infeasible) x random configurations, plain and decomposed; non-trivial: every run counts (all must finish)"),
        b("C14", gen_c14, 8000, 60000, false, "time-based elite education with random fractions, limits and clock scripts; non-trivial: the education phase ended by its own duration"),
        b("C17", gen_c17, 40000, 300000, false, "small populations, many generations, natural selection forced; non-trivial: a part of the population was shrunk"),
        b("C18", gen_c18, 30000, 250000, false, "feasibility regimes forced (tight, loose, infeasible instances and targets); a reference controller is stepped next to the search; non-trivial: the penalty was updated at least three times"),
    ]
}

// ------------------------------------------------------------------ generators
pub fn clock(r: &mut R, e: &mut Env) {
    e.per_draw = *r.pick(&[1_000u64, 1_000, 50_000, 1_000_000, 20, 0]);
    e.per_read = *r.pick(&[50u64, 50, 1_000, 0, 10_000]);
    e.seed = r.u64();
    for _ in 0..r.us(0, 3) {
        let at = 10u64.pow(r.us(1, 6) as u32) * r.range(1, 10);
        e.events.push(Ev { on_read: false, at, jump: if r.p(0.5) { r.range(0, 5_000_000_000) } else { 0 }, rate: if r.p(0.5) { *r.pick(&[0i64, 1000, 10_000_000]) } else { -1 } });
    }
    e.events.sort_by_key(|x| x.at);
}
/// one scenario of so many has some hundred customers
const BIG: [(&str, usize); 13] =
    [("C01", 80), ("C02", 100), ("C03", 80), ("C06", 50), ("C11", 50), ("C13", 150), ("C17", 150), ("C19", 250), ("C20", 200), ("C26", 60), ("C18", 300), ("C24", 200), ("C25", 250)];
/// whether a scenario is such a large one; DST_BIG=1 makes all of them large
pub fn is_big(b: &mut R, share: usize) -> bool {
    b.us(0, share) == 0 || std::env::var_os("DST_BIG").is_some()
}
pub fn big_n(r: &mut R) -> usize {
    *r.pick(&[100usize, 140, 198, 200, 240, 255, 256, 300, 420, 420, 700]) + r.us(0, 5)
}
/// what such a scenario can do in a second or so
pub fn tame(s: &mut Scn) {
    s.steps = s.steps.min(16);
    let low = |s: &mut Scn, k: &str, d: f64, max: f64| {
        if s.cf(k, d) > max {
            s.c(k, json!(max));
        }
    };
    low(s, "elite_education_gamma", 1000.0, 2.0);
    low(s, "rr_gamma", 1.0, 1.0);
    for (k, d, max) in [("initial_individuals", 100, 10), ("local_search_granularity", 20, 40)] {
        if s.cu(k, d) > max {
            s.c(k, json!(max));
        }
    }
    if let Some(v) = s.par.get_mut("ops").and_then(|x| x.as_array_mut()) {
        v.truncate(2);
    }
    s.budget = s.budget.max(400_000_000);
}
pub fn base(prop: &str, seed: u64, kind: Kind, max: usize) -> (R, Scn) {
    let mut r = R::new(seed);
    let mut s = Scn::new(prop, "ga", seed);
    let mut n = inst::gen_n(&mut r, max).max(if kind == Kind::Edge { 1 } else { 2 });
    let mut b = R::new(seed ^ 0xB16);
    let big = BIG.iter().any(|(p, share)| *p == prop && (max > 25 || *p == "C24" || *p == "C25") && is_big(&mut b, *share));
    if big {
        n = big_n(&mut b);
        s.set("big", json!(true));
    }
    gen_cfg(&mut r, &mut s, n);
    let rounded = s.rounded();
    s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    clock(&mut r, &mut s.env);
    if r.p(0.08) {
        s.env.heap = r.u64() | 1;
    }
    s.steps = r.range(10, 120);
    if n > 45 {
        s.steps = s.steps.min(50);
    }
    (r, s)
}
fn gen_c01(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 300 == 153 {
        return crate::drun::gen("C01", seed);
    }
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge, Kind::Feasible][(i % 5) as usize];
    let (mut r, mut s) = base("C01", seed, kind, 80);
    if i % 7 == 3 {
        s.c("elite_education", json!(true));
        s.c("elite_education_problem_size_limit", json!(1));
    }
    if i % 11 == 5 {
        s.c("max_iterations_without_improvement", json!(r.range(0, 6)));
    }
    s
}
fn gen_c02(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 400 == 203 {
        return crate::drun::gen("C02", seed);
    }
    let kind = [Kind::Any, Kind::Feasible, Kind::Loose, Kind::Feasible][(i % 4) as usize];
    let (mut r, mut s) = base("C02", seed, kind, 70);
    let rounded = r.p(0.5);
    s.c("round_distances", json!(rounded));
    let n = s.inst().n();
    if r.p(0.4) {
        s.c("precompute_distance_size_limit", json!(r.range(0, n as u64 + 2)));
    }
    if r.p(0.25) && s.inst().lower.is_none() {
        // explicit, not derived from the coordinates
        let mut l = vec![];
        for i in 1..=n {
            l.push((0..i).map(|_| r.us(1, 200) as f64 + if r.p(0.3) { 0.25 * r.us(0, 4) as f64 } else { 0.0 }).collect::<Vec<f64>>());
        }
        s.inst.as_mut().unwrap().lower = Some(l);
    }
    s
}
fn gen_c03(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 240 == 123 {
        return crate::drun::gen("C03", seed);
    }
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Tight][(i % 4) as usize];
    let (mut r, mut s) = base("C03", seed, kind, 60);
    if r.p(0.6) {
        s.c("max_iterations_without_improvement", json!(r.range(0, 8)));
        s.steps = r.range(60, 200);
    }
    if r.p(0.5) {
        s.c("elite_education", json!(true));
        s.c("elite_education_problem_size_limit", json!(1));
        s.c("elite_education_gamma", json!(*r.pick(&[5.0, 40.0, 100.0])));
    }
    if r.p(0.5) {
        s.c("rr_start_temp", json!(*r.pick(&[10.0, 100.0, 1000.0])));
    }
    s
}
fn gen_c04(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 30 == 18 {
        return crate::drun::gen("C04", seed);
    }
    let kind = [Kind::Any, Kind::Feasible][(i % 2) as usize];
    let (mut r, mut s) = base("C04", seed, kind, 40);
    s.env.events.clear();
    let limit = *r.pick(&[0u64, 1, 1, 2, 5, 10]);
    s.c("time_limit", json!(limit));
    s.steps = 400;
    // a typical run makes this many draws; the deadline is placed somewhere in it
    let draws = 10u64.pow(r.us(2, 5) as u32) * r.range(1, 10);
    match r.us(0, 5) {
        0 => {
            s.env.per_draw = (limit * 1_000_000_000 / draws.max(1)).max(1);
            s.env.per_read = *r.pick(&[0u64, 50]);
        }
        1 => {
            // the clock creeps, then jumps over the deadline in the middle of work
            s.env.per_draw = r.range(0, 3);
            s.env.events.push(Ev { on_read: false, at: draws, jump: limit * 1_000_000_000 + r.range(0, 3) * 1_000_000_000, rate: -1 });
        }
        2 => {
            // jump to just before the deadline, then creep across it
            s.env.per_draw = 0;
            s.env.per_read = r.range(0, 20);
            s.env.events.push(Ev { on_read: false, at: draws, jump: (limit * 1_000_000_000).saturating_sub(r.range(1, 2000)), rate: r.range(0, 3) as i64 });
        }
        3 => {
            // the deadline falls between two readings of the clock
            s.env.per_draw = 0;
            s.env.per_read = 0;
            s.env.events.push(Ev { on_read: true, at: r.range(1, 300), jump: limit * 1_000_000_000, rate: -1 });
        }
        _ => {
            // steps: parts of the limit at scattered moments, stalls in between
            s.env.per_draw = 0;
            let k = r.range(1, 5);
            for _ in 0..k {
                s.env.events.push(Ev { on_read: false, at: r.range(1, draws), jump: limit * 1_000_000_000 / k + r.range(0, 2), rate: -1 });
            }
            s.env.events.sort_by_key(|x| x.at);
        }
    }
    if r.p(0.2) {
        s.c("max_iterations", json!(r.range(0, 30)));
    }
    if r.p(0.3) {
        s.c("elite_education", json!(true));
        s.c("elite_education_problem_size_limit", json!(1));
        s.c("elite_education_gamma", json!(*r.pick(&[40.0, 400.0, 5000.0])));
    }
    if r.p(0.2) {
        // a slow disk takes its part of the limit
        s.env.faults.push(Fault { class: simhook::INSTANCE, op: 1, kind: simhook::K_SLOW, at: r.range(0, 2), arg: limit * 1_000_000_000 / r.range(1, 9) + r.range(0, 2), count: r.range(1, 4) });
    }
    if i % 5 == 4 {
        s.set("solver_run", json!(true));
    }
    s
}
fn gen_c05(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Feasible, Kind::Edge][(i % 3) as usize];
    let (mut r, mut s) = base("C05", seed, kind, 25);
    s.env.events.clear();
    s.env.per_draw = 1000;
    s.c("initial_individuals", json!(r.range(1, 6)));
    if r.p(0.5) {
        s.c("max_iterations", json!(r.range(0, 60)));
        s.steps = 400;
    } else {
        s.steps = r.range(60, 250);
    }
    if r.p(0.75) {
        s.c("max_iterations_without_improvement", json!(r.range(0, 12)));
    }
    if i % 100 == 7 {
        // the patience of real runs, with so few customers that they get there
        let n = r.us(2, 6);
        let rounded = s.rounded();
        s.inst = Some(inst::gen(&mut r, n, Kind::Feasible, rounded));
        let patience = *r.pick(&[300u64, 2_000, 10_000, 20_000]);
        if patience == 20_000 {
            s.cfg.remove("max_iterations_without_improvement");
        } else {
            s.c("max_iterations_without_improvement", json!(patience + r.range(0, 9)));
        }
        s.cfg.remove("max_iterations");
        if r.p(0.3) {
            s.c("max_iterations", json!(patience + r.range(0, 3000)));
        }
        s.c("initial_individuals", json!(r.range(1, 4)));
        s.c("min_population_size", json!(r.range(2, 6)));
        s.c("population_lambda", json!(r.range(1, 6)));
        s.c("rr_gamma", json!(0.1));
        s.c("elite_education", json!(false));
        s.steps = patience + patience / 10 + 60;
        s.env.per_draw = 10;
        s.budget = 400_000_000;
        s.set("long", json!(true));
    }
    s
}
/// an elite education that is long enough to take the penalty to the end of its range, and far beyond if it has none
fn saturate(r: &mut crate::rng::R, s: &mut Scn) {
    let n = r.us(1, 6);
    let rounded = s.rounded();
    let kind = *r.pick(&[Kind::Edge, Kind::Tight, Kind::Loose]);
    let mut inst = inst::gen(r, n, kind, rounded);
    if r.p(0.5) {
        // no way to be feasible
        let k = r.us(1, n + 1);
        inst.d[k] = inst.cap + r.us(1, 9) as f64;
    }
    s.inst = Some(inst);
    s.c("elite_education", json!(true));
    s.c("elite_education_problem_size_limit", json!(0));
    s.c("elite_education_time_based", json!(false));
    s.c("average_ruin_cardinality", json!(r.range(1, 3)));
    let (inc, batches) = *r.pick(&[(30.0, 230u64), (30.0, 230), (8.0, 360), (1.2, 300)]);
    s.c("penalty_inc_multiplier", json!(inc));
    s.c("penalty_dec_multiplier", json!(*r.pick(&[0.03, 0.5, 0.85])));
    s.c("elite_education_gamma", json!((batches * 1000) as f64 / n as f64));
    s.steps = batches + r.range(20, 60);
}
/// many vehicles, each with room for one customer or two: what is allocated per vehicle is large
pub fn fleet(r: &mut R, s: &mut Scn, wide: bool) {
    let n = if wide { r.us(220, 500) } else { r.us(50, 120) };
    let rounded = s.rounded();
    let mut inst = inst::gen(r, n, Kind::Any, rounded);
    inst.cap = 10.0;
    let two = r.p(0.3);
    for c in 1..=n {
        inst.d[c] = if two && r.p(0.5) { 5.0 } else { r.us(6, 11) as f64 };
    }
    s.inst = Some(inst);
    if wide || r.p(0.5) {
        s.cfg.remove("precompute_distance_size_limit");
    }
    s.c("initial_individuals", json!(r.range(1, 4)));
    s.c("rr_gamma", json!(0.3));
    s.c("average_ruin_cardinality", json!(r.range(1, 8)));
    s.c("elite_education", json!(false));
    s.c("local_search_granularity", json!(r.range(2, 12)));
    s.steps = if wide { r.range(3, 7) } else { r.range(3, 20) };
    s.budget = 400_000_000;
}
fn gen_c10(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 300 == 153 {
        return crate::drun::gen("C10", seed);
    }
    let kind = [Kind::Edge, Kind::Edge, Kind::Any, Kind::Tight, Kind::Loose, Kind::Edge][(i % 6) as usize];
    let (mut r, mut s) = base("C10", seed, kind, 60);
    if i % 150 == 27 || i % 1200 == 75 {
        let wide = i % 1200 == 75;
        fleet(&mut r, &mut s, wide);
        return s;
    }
    if i % 6 == 0 || i % 6 == 5 {
        // tiny instances
        let n = r.us(1, 6);
        let rounded = s.rounded();
        s.inst = Some(inst::gen(&mut r, n, Kind::Edge, rounded));
    }
    if r.p(0.5) {
        s.c("max_iterations", json!(r.range(1, 80)));
        s.steps = 600;
    }
    if i % 6 == 4 {
        // small demands: defaults for what the claim depends on
        let m = s.inst().max_demand().max(1.0);
        let inst = s.inst.as_mut().unwrap();
        inst.cap = inst.cap.max(m * 10.0);
        s.cfg.retain(|k, _| ["deterministic", "seed", "round_distances", "rr_mutation", "linear_split", "elite_education", "elite_education_gamma", "precompute_distance_size_limit"].contains(&k.as_str()));
        s.c("time_limit", json!(1_000_000));
        s.c("initial_individuals", json!(r.range(10, 25)));
        s.set("small", json!(true));
        s.steps = 700;
    }
    if !s.b("small") && i % 9 == 2 {
        // a penalty that goes to the end of its range
        s.c("penalty_update_interval", json!(1));
        s.c("penalty_inc_multiplier", json!(*r.pick(&[1.2, 3.0, 30.0])));
        s.c("feasibility_proportion_target", json!(*r.pick(&[0.9, 1.0])));
        s.c("initial_individuals", json!(r.range(2, 10)));
        s.steps = s.steps.max(r.range(60, 160));
        if r.p(0.4) {
            s.c("repair_probability", json!(1.0));
        }
        let inst = s.inst.as_mut().unwrap();
        if r.p(0.5) && inst.cap < 1000.0 {
            // and large overloads: rounding errors beyond the solver's epsilon
            let f = *r.pick(&[10_000.0, 1_000_000.0]);
            inst.cap = inst.cap * f;
            for d in inst.d.iter_mut() {
                *d = *d * f + if *d > 0.0 { r.us(0, 4) as f64 } else { 0.0 };
            }
        }
        if r.p(0.7) {
            s.c("round_distances", json!(false));
        }
    }
    if !s.b("small") && i % 90 == 5 {
        saturate(&mut r, &mut s);
    }
    if s.inst().max_demand() > s.inst().cap + 1e-3 {
        s.set("infeasible", json!(true));
    }
    s.budget = 60_000_000;
    s
}
fn gen_c14(_i: u64, seed: u64, _t: bool) -> Scn {
    let (mut r, mut s) = base("C14", seed, Kind::Any, 30);
    s.env.events.clear();
    let limit = r.range(1, 60);
    s.c("time_limit", json!(limit));
    s.c("elite_education", json!(true));
    s.c("elite_education_problem_size_limit", json!(0));
    s.c("elite_education_time_based", json!(true));
    let f = *r.pick(&[0.02, 0.02, 0.1, 0.3, 0.5, 0.001, 1.0, 0.0]);
    s.c("elite_education_time_fraction", json!(f));
    s.steps = 400;
    // about `moves` moves fit into the education (some tens of draws each)
    let draws = 30 * 10u64.pow(r.us(1, 4) as u32) * r.range(1, 10);
    let dur = (limit as f64 * f * 1e9) as u64;
    match r.us(0, 4) {
        0 | 1 => {
            s.env.per_draw = (dur / draws).max(1);
            s.env.per_read = *r.pick(&[0u64, 50, 1000]);
        }
        2 => {
            s.env.per_draw = r.range(0, 5);
            s.env.events.push(Ev { on_read: false, at: draws + r.range(0, 20_000), jump: dur + 3_000 + r.range(0, 2) * 1_000_000, rate: -1 });
        }
        _ => {
            // almost there, a long stall, then across
            s.env.per_draw = 0;
            s.env.per_read = 0;
            let a = r.range(5_000, 50_000);
            s.env.events.push(Ev { on_read: false, at: a, jump: dur.saturating_sub(1000), rate: 0 });
            s.env.events.push(Ev { on_read: false, at: a + draws, jump: 5000 + r.range(0, 1_000_000), rate: (dur / draws).max(1) as i64 });
        }
    }
    s.budget = 8_000_000;
    s
}
fn gen_c17(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge][(i % 4) as usize];
    let small = i % 3 == 1;
    let (mut r, mut s) = base("C17", seed, kind, if small { 9 } else { 30 });
    s.c("min_population_size", json!(r.range(if small { 1 } else { 2 }, 6)));
    if small || r.p(0.3) {
        s.c("num_elites", json!(r.range(0, 3)));
        s.c("num_diversity_closest", json!(r.range(1, 4)));
    }
    s.c("population_lambda", json!(r.range(1, 6)));
    s.c("initial_individuals", json!(r.range(1, 20)));
    s.steps = r.range(60, 200);
    if i % 100 == 41 {
        // populations of the size real runs have
        let n = r.us(8, 26);
        let rounded = s.rounded();
        let kind = *r.pick(&[Kind::Feasible, Kind::Tight, Kind::Edge]);
        s.inst = Some(inst::gen(&mut r, n, kind, rounded));
        s.c("min_population_size", json!(r.range(10, 30)));
        s.c("population_lambda", json!(r.range(10, 45)));
        s.c("initial_individuals", json!(r.range(20, 110)));
        s.c("rr_gamma", json!(*r.pick(&[0.1, 1.0])));
        s.cfg.remove("max_iterations_without_improvement");
        if r.p(0.5) {
            // few repairs, so that copies come in
            s.c("rr_mutation", json!(false));
        }
        s.steps = r.range(300, 1200);
        s.budget = 400_000_000;
    }
    s
}
fn gen_c18(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Tight, Kind::Loose, Kind::Edge, Kind::Feasible][(i % 5) as usize];
    let (mut r, mut s) = base("C18", seed, kind, 30);
    s.c("penalty_update_interval", json!(*r.pick(&[1u64, 1, 2, 5, 10])));
    s.c("feasibility_proportion_target", json!(*r.pick(&[0.2, 0.2, 0.5, 0.9, 0.05, 0.0, 1.0])));
    if r.p(0.4) {
        s.c("penalty_inc_multiplier", json!(*r.pick(&[1.2, 2.0, 30.0])));
        s.c("penalty_dec_multiplier", json!(*r.pick(&[0.85, 0.5, 0.03])));
    }
    s.c("initial_individuals", json!(r.range(1, 12)));
    s.steps = r.range(80, 260);
    if i % 120 == 7 {
        saturate(&mut r, &mut s);
    }
    if i % 150 == 31 {
        // thousands of generations of a few customers
        let n = r.us(2, 7);
        let rounded = s.rounded();
        let kind = *r.pick(&[Kind::Feasible, Kind::Tight, Kind::Edge]);
        s.inst = Some(inst::gen(&mut r, n, kind, rounded));
        s.c("rr_gamma", json!(0.1));
        s.c("elite_education", json!(false));
        s.c("min_population_size", json!(r.range(2, 6)));
        s.c("population_lambda", json!(r.range(1, 6)));
        s.cfg.remove("max_iterations");
        if r.p(0.7) {
            s.cfg.remove("max_iterations_without_improvement");
        }
        s.steps = r.range(1000, 6000);
        s.env.per_draw = 10;
        s.env.events.clear();
        s.budget = 400_000_000;
    }
    s
}

// ------------------------------------------------------------------ monitors
pub struct Found(pub Vec<(&'static str, Viol)>);
impl Found {
    pub fn v(&mut self, p: &'static str, key: &str, msg: String) {
        if self.0.iter().filter(|(q, _)| *q == p).count() < 1 {
            self.0.push((p, Viol { key: key.into(), msg }));
        }
    }
    pub fn take(&self, p: &str) -> Option<Viol> {
        self.0.iter().find(|(q, _)| *q == p).map(|(_, v)| v.clone())
    }
}
/// everything that watches reported solutions
pub struct HistWatch {
    pub inst: Inst,
    pub rounded: bool,
    pub seen: usize,
    pub best: f64,
    pub trace: H,
    pub found: Found,
    pub moves: u64,
    pub late_moves: u64,
    pub late_after: Option<u64>,
    pub rr_reports: u64,
    /// what the last move of ruin-and-recreate made, to be reported if it is a new best
    pub made: Option<Vec<Vec<usize>>>,
}
impl HistWatch {
    pub fn new(inst: &Inst, rounded: bool) -> Self {
        HistWatch { inst: inst.clone(), rounded, seen: 0, best: f64::INFINITY, trace: H::new(), found: Found(vec![]), moves: 0, late_moves: 0, late_after: None, rr_reports: 0, made: None }
    }
    pub fn look(&mut self, ctx: &Context, when: &str) {
        self.reported(ctx, when);
        if let Some(m) = self.made.take() {
            self.held(&m, "result of a move of ruin-and-recreate");
        }
    }
    fn reported(&mut self, ctx: &Context, when: &str) {
        let h = ctx.search_history.borrow();
        let es = h.entries();
        if es.len() == self.seen {
            return;
        }
        if es.len() < self.seen {
            self.found.v("C03", "history-shrunk", format!("reported improvements went from {} to {} ({})", self.seen, es.len(), when));
            self.seen = es.len();
            return;
        }
        for i in self.seen..es.len() {
            let e = &es[i];
            self.trace.f(e.solution.cost);
            self.trace.add(simhook::draws());
            if !(e.solution.cost < self.best) {
                self.found.v("C03", "not-decreasing", format!("improvement {} costs {} after one of {} ({})", i, e.solution.cost, self.best, when));
            }
            self.best = e.solution.cost;
            if i + 1 == es.len() {
                self.solution(&e.solution.routes, e.solution.cost, when);
                self.printed(&outside(|| e.solution.to_string()), &e.solution.routes, when);
            }
        }
        if h.best_cost != self.best {
            self.found.v("C03", "best-cost-field", format!("best cost says {} after reporting {}", h.best_cost, self.best));
        }
        self.seen = es.len();
    }
    pub fn solution(&mut self, routes: &[Vec<usize>], cost: f64, when: &str) {
        if let Some(m) = self.inst.partition_err(routes) {
            self.found.v("C01", "partition", format!("reported solution: {} ({})", m, when));
            self.found.v("C02", "partition", format!("reported solution: {} ({})", m, when));
            return;
        }
        if let Some(m) = self.inst.overload_err(routes) {
            self.found.v("C01", "overload", format!("reported solution: {} ({})", m, when));
        }
        let want = self.inst.cost(routes, self.rounded);
        if !((cost - want).abs() <= self.inst.tol_cost(want)) {
            self.found.v("C02", "cost", format!("reported cost {} for routes of length {} ({}): {:?}", cost, want, when, routes));
        }
    }
    /// the text of a solution file
    fn printed(&mut self, text: &str, routes: &[Vec<usize>], when: &str) {
        let want = self.inst.cost(routes, self.rounded);
        let last = text.trim_end().lines().last().unwrap_or("");
        match last.strip_prefix("Cost ").and_then(|v| v.trim().parse::<f64>().ok()) {
            // within the noise of summation of a half, either neighbour is the nearest integer
            Some(c) if c.fract() == 0.0 && (c - want).abs() <= 0.5 + self.inst.tol_cost(want) => {}
            _ => self.found.v("C02", "printed-cost", format!("the solution of length {} is written with the line {:?} ({})", want, last, when)),
        }
        let mut got: Vec<Vec<usize>> = vec![];
        for l in text.lines().filter(|l| l.starts_with("Route")) {
            got.push(l.split(':').nth(1).unwrap_or("").split_whitespace().filter_map(|w| w.parse().ok()).collect());
        }
        if let Some(m) = self.inst.partition_err(&got) {
            self.found.v("C01", "printed", format!("the solution as written: {} ({})", m, when));
        } else if let Some(m) = self.inst.overload_err(&got) {
            self.found.v("C01", "printed", format!("the solution as written: {} ({})", m, when));
        }
    }
    /// a feasible complete solution the search holds
    pub fn held(&mut self, routes: &[Vec<usize>], what: &str) {
        if routes.iter().all(|r| r.is_empty()) || self.inst.partition_err(routes).is_some() {
            return;
        }
        // strictly inside the capacity, so that no tolerance of the solver decides
        if routes.iter().any(|r| self.inst.load(r) > self.inst.cap) {
            return;
        }
        let c = self.inst.cost(routes, self.rounded);
        if c < self.best - 2e-6 - 1e-9 * c.abs() {
            self.found.v("C03", &format!("lost-{}", what.split(' ').next().unwrap_or("")), format!("the {} is feasible and costs {} but the best reported costs {}", what, c, self.best));
        }
    }
}
struct Spy {
    inner: Box<dyn Ruin>,
    w: Rc<RefCell<HistWatch>>,
    held: bool,
}
impl Ruin for Spy {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        outside(|| {
            let mut w = self.w.borrow_mut();
            let n = w.seen;
            w.look(ctx, "in ruin-and-recreate");
            if w.seen > n {
                w.rr_reports += (w.seen - n) as u64;
            }
            w.moves += 1;
            if let Some(t) = w.late_after {
                if simhook::now_ns() >= t {
                    w.late_moves += 1;
                }
            }
            if self.held && solution.cost < w.best && solution.is_feasible() && solution.unassigned.is_empty() {
                let routes: Vec<Vec<usize>> = solution.routes.iter().map(|r| r.nodes.clone()).collect();
                w.held(&routes, "working solution of ruin-and-recreate");
            }
        });
        self.inner.run(ctx, solution);
    }
}
struct SpyRecreate {
    inner: Box<dyn Recreate>,
    w: Rc<RefCell<HistWatch>>,
}
impl Recreate for SpyRecreate {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        self.inner.run(ctx, solution);
        outside(|| {
            let mut w = self.w.borrow_mut();
            if solution.cost < w.best && solution.is_feasible() && solution.unassigned.is_empty() {
                w.made = Some(solution.routes.iter().map(|r| r.nodes.clone()).collect());
            }
        });
    }
}
pub fn spy(ga: &mut GeneticAlgorithm, w: &Rc<RefCell<HistWatch>>, held: bool) {
    struct Nothing;
    impl Ruin for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    let inner = std::mem::replace(&mut ga.rr.ruin, Box::new(Nothing));
    ga.rr.ruin = Box::new(Spy { inner, w: w.clone(), held });
    if held {
        struct Empty;
        impl Recreate for Empty {
            fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
        }
        let inner = std::mem::replace(&mut ga.rr.recreate, Box::new(Empty));
        ga.rr.recreate = Box::new(SpyRecreate { inner, w: w.clone() });
    }
}

#[derive(Clone, Debug)]
struct Snap {
    iterations: u64,
    num_init: u64,
    ctx_iter: u64,
    pen: f64,
    flen: usize,
    ilen: usize,
    fmin: f64,
    imin: f64,
    total: u64,
    cur_best: f64,
    hist: usize,
    draws: u64,
    now: u64,
    elite: bool,
    term: bool,
}
fn min_cost(p: &SubPopulation) -> f64 {
    p.population.iter().map(|i| i.penalized_cost()).fold(f64::INFINITY, f64::min)
}
fn snap(ga: &GeneticAlgorithm, ctx: &Context) -> Snap {
    Snap {
        iterations: ga.iterations,
        num_init: ga.num_initialized,
        ctx_iter: *ctx.iteration.borrow(),
        pen: ctx.config.borrow().penalty_capacity,
        flen: ga.population.feasible.size(),
        ilen: ga.population.infeasible.size(),
        fmin: min_cost(&ga.population.feasible),
        imin: min_cost(&ga.population.infeasible),
        total: ga.population.total_individuals_count,
        cur_best: ga.current_best_solution_cost,
        hist: ctx.search_history.borrow().entries().len(),
        draws: simhook::draws(),
        now: simhook::now_ns(),
        elite: ga.rr.update_penalty,
        term: ga.terminated(),
    }
}

struct Model {
    // C05
    best_iter: u64,
    epoch_min: f64,
    ambiguous: bool,
    gens: u64,
    resets: u64,
    // C18
    hist: Vec<bool>,
    next_update: u64,
    initial_pen: f64,
    updates: u64,
    // C17
    shrinks: u64,
    cheapest: Option<Vec<Vec<usize>>>,
    // C14
    edu_start: Option<u64>,
    edu_done: bool,
    edu_natural: bool,
}

struct Params {
    limit: u64,
    max_iter: Option<u64>,
    patience: u64,
    initial: u64,
    min: usize,
    lambda: usize,
    target: f64,
    inc: f64,
    dec: f64,
    interval: u64,
    edu_fraction: f64,
    edu_time: bool,
}

pub fn run_ga(s: &Scn) -> Out {
    if s.kind == "dec" {
        return crate::drun::run(s);
    }
    let mut o = ga_once(s);
    if o.viol.is_none() && o.aborted.is_none() && s.b("solver_run") && o.count.contains_key("terminated") {
        let o2 = solver_run(s, &o);
        o.runs += o2.runs;
        o.draws += o2.draws;
        o.sim_ns += o2.sim_ns;
        if o2.viol.is_some() {
            o.viol = o2.viol;
        }
    }
    o
}
/// key of a panic: the file it comes from
pub fn panic_key(m: &str) -> String {
    let at = m.rsplit(" at ").next().unwrap_or("");
    format!("panic:{}", at.split(':').next().unwrap_or(""))
}
pub fn crash(s: &Scn, o: &mut Out, e: &End, what: &str) {
    match e {
        End::Ok => {}
        End::Panic(m) => {
            if ["C10", "C12", "C13"].contains(&s.prop.as_str()) {
                o.v(&panic_key(m), format!("{} panicked: {}", what, m));
            } else {
                o.aborted = Some(format!("panic: {}", m));
            }
        }
        End::Budget => {
            if ["C10", "C12", "C13"].contains(&s.prop.as_str()) {
                o.v("hang", format!("{} did not end within {} random draws", what, s.budget));
            } else {
                o.aborted = Some("draw budget".into());
            }
        }
    }
}

/// the same scenario through Solver::run must do what stepping did
fn solver_run(s: &Scn, stepped: &Out) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let (r, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let ga = GeneticAlgorithm::new(&ctx);
        let mut sv = Solver::new(ctx, ga);
        sv.run();
        outside(|| {
            let mut h = H::new();
            for e in sv.ctx.search_history.borrow().entries() {
                h.f(e.solution.cost);
            }
            (h.0, simhook::draws(), simhook::now_ns())
        })
    });
    account(&mut o, &s.env, &st);
    match r {
        Ok((h, d, _)) => {
            if stepped.count.get("terminated").copied().unwrap_or(0) > 0 {
                let want = (stepped.count["hist_digest"], stepped.count["end_draws"]);
                if (h & 0xffff_ffff, d) != want {
                    o.v("solver-run", format!("Solver::run made {} draws, the same scenario stepped made {} (history digests {:x} / {:x})", d, want.1, h & 0xffff_ffff, want.0));
                }
            }
        }
        Err(e) => crash(s, &mut o, &e, "Solver::run"),
    }
    o
}

pub fn ga_once(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let w = Rc::new(RefCell::new(HistWatch::new(s.inst(), s.rounded())));
    let w2 = w.clone();
    let (r, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let mut m = body(s, &w2);
        outside(|| {
            m.fin();
        });
        m.out
    });
    account(&mut o, &s.env, &st);
    let w = w.borrow();
    let mut trace = w.trace;
    match r {
        Ok(b) => {
            o.count = b.count;
            o.nontrivial = b.nontrivial;
            trace.add(b.trace);
            if b.viol.is_some() {
                o.viol = b.viol;
            }
        }
        Err(e) => {
            crash(s, &mut o, &e, "the run");
            // what had been reported by then still counts
            o.nontrivial = w.seen > 0;
        }
    }
    if o.viol.is_none() {
        o.viol = w.found.take(&s.prop);
    }
    o.inc("reported_solutions", w.seen as u64);
    o.inc("rr_moves_watched", w.moves);
    o.inc("reported_inside_rr", w.rr_reports);
    trace.add(st.draws);
    trace.add(st.elapsed_ns);
    o.trace = trace.0 | 1;
    o
}
struct Body {
    out: Out,
    ctx: Option<Box<Context>>,
}
impl Body {
    fn fin(&mut self) {
        self.ctx = None;
    }
}

fn body(s: &Scn, w: &Rc<RefCell<HistWatch>>) -> Body {
    let prop: &str = &s.prop;
    let mut o = Out::default();
    let inst = s.inst();
    let rounded = s.rounded();
    let (ctx, t0) = context_at(s);
    let ctx = Box::new(ctx);
    let mut ga = GeneticAlgorithm::new(&ctx);
    let pr = outside(|| {
        let c = ctx.config.borrow();
        Params {
            limit: c.time_limit,
            max_iter: c.max_iterations,
            patience: c.max_iterations_without_improvement,
            initial: c.initial_individuals,
            min: c.min_population_size as usize,
            lambda: c.population_lambda as usize,
            target: c.feasibility_proportion_target,
            inc: c.penalty_inc_multiplier,
            dec: c.penalty_dec_multiplier,
            interval: c.penalty_update_interval,
            edu_fraction: c.elite_education_time_fraction,
            edu_time: c.elite_education_time_based && c.elite_education,
        }
    });
    outside(|| spy(&mut ga, w, prop == "C03"));
    let mut md = Model {
        best_iter: 0,
        epoch_min: f64::INFINITY,
        ambiguous: false,
        gens: 0,
        resets: 0,
        hist: vec![true; 100],
        next_update: 0,
        initial_pen: ctx.config.borrow().penalty_capacity,
        updates: 0,
        shrinks: 0,
        cheapest: None,
        edu_start: None,
        edu_done: false,
        edu_natural: false,
    };
    let mut after_end = 0;
    let mut steps_done = 0u64;
    let mut tr = H::new();
    for step in 0..s.steps {
        let a = outside(|| snap(&ga, &ctx));
        ga.iterate(&ctx);
        steps_done += 1;
        let stop = outside(|| {
            let b = snap(&ga, &ctx);
            let mut wm = w.borrow_mut();
            wm.look(&ctx, &format!("step {}", step));
            monitor(prop, inst, rounded, &pr, &mut md, &mut wm, &ga, &ctx, &a, &b, t0);
            tr.add(b.draws);
            tr.f(b.pen);
            tr.add(b.iterations);
            tr.add((b.flen * 1000 + b.ilen) as u64);
            if wm.found.take(prop).is_some() {
                return true;
            }
            if b.term {
                after_end += 1;
                return after_end >= 3;
            }
            // watching for the first feasible solution
            prop == "C10" && s.b("small") && wm.seen > 0 && step > 60
        });
        if stop {
            break;
        }
    }
    outside(|| {
        let wm = &mut *w.borrow_mut();
        let b = snap(&ga, &ctx);
        // small demands, infeasible instances
        if prop == "C10" {
            if s.b("small") && md.gens >= 600 && wm.seen == 0 && md.resets == 0 {
                wm.found.v("C10", "no-feasible", format!("demands are at most a tenth of the capacity and the search went through {} generations, but no feasible solution was reported", md.gens));
            }
            if s.inst().max_demand() > s.inst().cap + 1e-3 && wm.seen > 0 {
                wm.found.v("C10", "impossible-feasible", "a solution was reported although one demand exceeds the capacity".into());
            }
        }
        if b.term {
            o.inc("terminated", 1);
            let mut h = H::new();
            for e in ctx.search_history.borrow().entries() {
                h.f(e.solution.cost);
            }
            o.count.insert("hist_digest".into(), h.0 & 0xffff_ffff);
            o.count.insert("end_draws".into(), b.draws);
        }
        o.nontrivial = match prop {
            "C01" | "C02" => wm.seen > 0,
            "C03" => wm.seen > 1 || (md.resets > 0 && wm.seen > 0),
            "C04" => b.term && (steps_done > 3 || pr.limit == 0),
            "C05" => md.resets > 0 || (b.term && md.gens > 0),
            "C10" => true,
            "C14" => md.edu_natural,
            "C17" => md.shrinks > 0,
            "C18" => md.updates >= 3,
            _ => true,
        };
        o.inc("steps", steps_done);
        o.inc("generations", md.gens);
        o.inc("restarts", md.resets);
        o.inc("shrinks", md.shrinks);
        o.inc("penalty_updates", md.updates);
        if md.edu_natural {
            o.inc("education_ended_on_time", 1);
        }
        if b.term {
            o.inc("ended_by_itself", 1);
        }
        o.trace = tr.0;
    });
    let mut b = Body { out: o, ctx: None };
    outside(|| drop(ga));
    b.ctx = Some(ctx);
    b
}

#[allow(clippy::too_many_arguments)]
fn monitor(prop: &str, inst: &Inst, rounded: bool, pr: &Params, md: &mut Model, w: &mut HistWatch, ga: &GeneticAlgorithm, ctx: &Context, a: &Snap, b: &Snap, t0: u64) {
    let el_a = a.now - t0;
    let el_b = b.now - t0;
    let lim_ns = pr.limit.saturating_mul(1_000_000_000);
    let budget_hit = pr.max_iter.map_or(false, |m| a.ctx_iter >= m);

    // ---- C04
    if prop == "C04" {
        if (el_a >= lim_ns || a.term) && (!b.term || b.draws != a.draws || b.hist != a.hist) {
            w.found.v("C04", if b.term { "work-after-limit" } else { "not-ended" }, format!("{} ns after a limit of {} s a step {} ({} draws, {} new reports)", el_a - lim_ns.min(el_a), pr.limit, if b.term { "still did work" } else { "was started and did not end the run" }, b.draws - a.draws, b.hist - a.hist));
        }
        if b.term && !a.term && el_b < lim_ns && !budget_hit {
            w.found.v("C04", "early-end", format!("the run ended {} ns after its start; the limit is {} s", el_b, pr.limit));
        }
        if pr.limit == 0 && b.hist > 0 {
            w.found.v("C04", "zero-limit", "a run with limit zero reported a solution".into());
        }
    }
    // ---- C05
    let gen_step = b.ctx_iter != a.ctx_iter || b.iterations != a.iterations;
    let reset = b.total < a.total || (b.num_init == 0 && a.num_init > 0 && b.flen + b.ilen == 0);
    if gen_step {
        md.gens += 1;
        if b.ctx_iter != a.ctx_iter + 1 || b.iterations != a.iterations + 1 {
            w.found.v("C05", "count", format!("generation counters went from {}/{} to {}/{} in one step", a.ctx_iter, a.iterations, b.ctx_iter, b.iterations));
        }
        if a.num_init < pr.initial {
            w.found.v("C05", "unfinished-rebuild", format!("a generation ran with {} of {} initial individuals made", a.num_init, pr.initial));
        }
        if budget_hit {
            w.found.v("C05", "over-budget", format!("generation {} was run with a budget of {:?}", b.ctx_iter, pr.max_iter));
        }
        if !reset && b.total <= a.total {
            w.found.v("C05", "idle-generation", "a generation added nothing to the population".into());
        }
    }
    if b.term && !a.term && el_b < lim_ns {
        if let Some(m) = pr.max_iter {
            if md.gens != m {
                w.found.v("C05", "under-budget", format!("the run ended after {} generations with a budget of {}", md.gens, m));
            }
        }
    }
    if budget_hit && !b.term {
        w.found.v("C05", "no-end", format!("the budget of {:?} generations is used up but the run goes on", pr.max_iter));
    }
    {
        let g = a.iterations;
        let childc = if gen_step && ga.child.is_feasible() && inst.partition_err(&ga.child.phenotype).is_none() { ga.child.penalized_cost() } else { f64::INFINITY };
        // a repaired or initial individual the population turned away is not visible: believe the search's
        // own record where there can have been one
        let hidden = !gen_step || b.total >= a.total + 2;
        let hid = if hidden && !reset && b.cur_best < a.cur_best { b.cur_best } else { f64::INFINITY };
        let now_min = if reset { childc } else { b.fmin.min(childc).min(hid) };
        let d = md.epoch_min - now_min;
        if d > 1.5e-6 || (now_min.is_finite() && md.epoch_min.is_infinite()) {
            md.best_iter = g;
            md.epoch_min = now_min;
            md.ambiguous = false;
        } else if d > 0.5e-6 {
            md.ambiguous = true; // too close to the solver's own epsilon to call
        }
        // emptied in the very generation that reported something: whether that was this generation's
        // offspring (no restart due) or a by-product of its education can no longer be seen
        let unseen = reset && b.hist > a.hist && !(childc.is_finite() && d > 1.5e-6);
        if gen_step && !md.ambiguous && !unseen {
            let want = g - md.best_iter.min(g) > pr.patience;
            if want != reset {
                w.found.v(
                    "C05",
                    if reset { "early-restart" } else { "missed-restart" },
                    format!("generation {}: last improvement of this epoch at {}, threshold {}: the population was {}", g, md.best_iter, pr.patience, if reset { "rebuilt" } else { "not rebuilt" }),
                );
            }
        } else if reset && !gen_step {
            w.found.v("C05", "early-restart", "the population was emptied outside a generation".into());
        }
        if reset {
            md.resets += 1;
            md.best_iter = g;
            md.epoch_min = f64::INFINITY;
            md.ambiguous = false;
            if b.flen + b.ilen != 0 || b.num_init != 0 {
                w.found.v("C05", "partial-restart", format!("after a restart {} members and {} initial individuals remain", b.flen + b.ilen, b.num_init));
            }
        }
    }
    // ---- C03
    if prop == "C03" {
        w.held(&ga.child.phenotype, "child");
        for i in ga.population.feasible.population.iter() {
            w.held(&i.phenotype, "population member");
        }
        for i in ga.population.infeasible.population.iter() {
            w.held(&i.phenotype, "population member (infeasible part)");
        }
        if let Some(x) = ga.rr.best_solution.as_ref() {
            let routes: Vec<Vec<usize>> = x.routes.iter().map(|r| r.nodes.clone()).collect();
            w.held(&routes, "education result");
        }
        let routes: Vec<Vec<usize>> = ga.rr.solution.routes.iter().map(|r| r.nodes.clone()).collect();
        w.held(&routes, "education working solution");
        if let Some(x) = ga.best_solution.as_ref() {
            w.held(&x.phenotype, "best individual");
        }
        let h = ctx.search_history.borrow();
        if let Some(e) = h.last_entry() {
            if e.solution.cost != w.best {
                w.found.v("C03", "handover", format!("the solution handed over costs {} but the best reported costs {}", e.solution.cost, w.best));
            }
        }
        if reset && b.hist < a.hist {
            w.found.v("C03", "restart-lost", "a restart removed a report".into());
        }
    }
    // ---- C17
    if prop == "C17" {
        for (name, part, feas, alen, amin) in [("feasible", &ga.population.feasible, true, a.flen, a.fmin), ("infeasible", &ga.population.infeasible, false, a.ilen, a.imin)] {
            let p = &part.population;
            if p.len() >= pr.min + pr.lambda {
                w.found.v("C17", "size", format!("the {} part has {} members; minimum {} generation {}", name, p.len(), pr.min, pr.lambda));
            }
            for (k, i) in p.iter().enumerate() {
                if let Some(m) = inst.partition_err(&i.phenotype) {
                    w.found.v("C17", "incomplete", format!("{} member {}: {}", name, k, m));
                    continue;
                }
                let worst = i.phenotype.iter().map(|r| inst.load(r) - inst.cap).fold(f64::MIN, f64::max);
                if (feas && worst > inst.tol_load()) || (!feas && worst < 0.5e-6) {
                    w.found.v("C17", "kind", format!("{} member {} has a worst overload of {}", name, k, worst));
                }
                if i.is_feasible() != feas {
                    w.found.v("C17", "kind", format!("{} member {} is marked otherwise", name, k));
                }
                if k > 0 && p[k - 1].penalized_cost() > i.penalized_cost() + 2.1e-6 {
                    w.found.v("C17", "order", format!("{} members {} and {} cost {} and {}", name, k - 1, k, p[k - 1].penalized_cost(), i.penalized_cost()));
                }
                let routes = |i: &Individual| {
                    let mut v: Vec<Vec<usize>> = i.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
                    // a route driven the other way is the same route
                    v.iter_mut().filter(|r| r.last() < r.first()).for_each(|r| r.reverse());
                    v.sort();
                    v
                };
                for j in (0..k).rev().take_while(|j| (p[*j].penalized_cost() - i.penalized_cost()).abs() < 1e-4) {
                    if p[j].num_nonempty_routes() == i.num_nonempty_routes() && routes(&p[j]) == routes(i) {
                        w.found.v("C17", "copy", format!("{} members {} and {} have the same routes {:?}", name, j, k, routes(i)));
                        break;
                    }
                }
                if feas {
                    let c = inst.cost(&i.phenotype, rounded);
                    if (c - i.penalized_cost()).abs() > inst.tol_cost(c) {
                        w.found.v("C17", "cost", format!("{} member {} is filed under cost {} but costs {}", name, k, i.penalized_cost(), c));
                    }
                }
            }
            if !reset {
                if p.len() < alen {
                    md.shrinks += 1;
                    if p.len() != pr.min || alen + 1 != pr.min + pr.lambda {
                        w.found.v("C17", "shrink", format!("the {} part went from {} to {} members; minimum {} generation {}", name, alen, p.len(), pr.min, pr.lambda));
                    }
                } else if p.len() > alen + 1 {
                    w.found.v("C17", "size", format!("the {} part grew from {} to {} in one step", name, alen, p.len()));
                } else if pr.lambda == 1 && alen == pr.min && p.len() == pr.min {
                    md.shrinks += 1;
                }
                let mut m = min_cost(part);
                if !feas && a.pen != b.pen {
                    // what was compared when a member was removed were costs at the old penalty
                    for i in p.iter().filter(|i| inst.partition_err(&i.phenotype).is_none()) {
                        m = m.min(inst.pen_cost(&i.phenotype, rounded, a.pen));
                    }
                }
                // re-costing at a penalty update may reorder the infeasible part
                let still = !feas && md.cheapest.as_ref().map_or(false, |c| p.iter().any(|i| i.phenotype == *c));
                if alen > 0 && !still && m > amin + 5e-6 + inst.tol_pen(amin, a.pen.max(b.pen)) {
                    w.found.v("C17", "best-removed", format!("the cheapest {} member cost {} before the step and {} after it", name, amin, m));
                }
            }
        }
        md.cheapest = ga.population.infeasible.population.iter().min_by(|x, y| x.penalized_cost().total_cmp(&y.penalized_cost())).map(|i| i.phenotype.clone());
    }
    // ---- C18
    if prop == "C18" {
        let child_feas = |i: &Individual| -> Option<bool> {
            if inst.partition_err(&i.phenotype).is_some() {
                return None;
            }
            let worst = i.phenotype.iter().map(|r| inst.load(r) - inst.cap).fold(f64::MIN, f64::max);
            if worst.abs() < 2e-6 && worst != 0.0 && worst > 0.5e-6 {
                None
            } else {
                Some(worst <= 1e-6)
            }
        };
        let fh = &ga.population.feasible_history;
        let init_step = b.num_init == a.num_init + 1;
        if gen_step || init_step {
            let bit = if gen_step {
                child_feas(&ga.child)
            } else if b.flen > a.flen && b.ilen == a.ilen {
                // the new individual itself, unless a repaired copy was added as well
                if b.total == a.total + 1 {
                    Some(true)
                } else {
                    None
                }
            } else if b.ilen > a.ilen {
                Some(false)
            } else {
                None
            };
            let bit = bit.unwrap_or_else(|| *fh.last().unwrap_or(&true));
            md.hist.remove(0);
            md.hist.push(bit);
        }
        if reset {
            // judged with the history before the reset
        } else if *fh != md.hist {
            w.found.v("C18", "history", format!("the record of the last hundred offspring is not what happened: {} of {} feasible, expected {} of {}", fh.iter().filter(|x| **x).count(), fh.len(), md.hist.iter().filter(|x| **x).count(), md.hist.len()));
        }
        let mut allowed: Vec<f64> = vec![a.pen];
        let mut updated = false;
        if gen_step {
            if a.iterations >= md.next_update {
                updated = true;
                md.updates += 1;
                md.next_update += pr.interval;
                let share = md.hist.iter().filter(|x| **x).count() as f64 / 100.0;
                allowed.clear();
                let clamp = |x: f64| x.min(1e7).max(1e-4);
                let near = |x: f64| (share - x).abs() < 1e-9;
                if share < pr.target - 0.05 || near(pr.target - 0.05) {
                    allowed.push(clamp(a.pen * pr.inc));
                }
                if share > pr.target + 0.05 || near(pr.target + 0.05) {
                    allowed.push(clamp(a.pen * pr.dec));
                }
                if (share >= pr.target - 0.05 && share <= pr.target + 0.05) || near(pr.target - 0.05) || near(pr.target + 0.05) {
                    allowed.push(clamp(a.pen));
                }
            }
        } else if a.elite {
            if !b.elite {
                allowed = vec![md.initial_pen];
            } else {
                let clamp = |x: f64| x.min(1e7).max(1e-4);
                allowed = vec![a.pen, clamp(a.pen * pr.inc), clamp(a.pen * pr.dec)];
            }
        }
        if !allowed.iter().any(|x| (x - b.pen).abs() <= 1e-9 * x.abs()) {
            w.found.v(
                "C18",
                if updated { "update" } else if a.elite { "education" } else { "change" },
                format!(
                    "penalty went from {} to {} in a {} step, expected {:?} (feasible share {}, target {})",
                    a.pen,
                    b.pen,
                    if updated { "penalty-update" } else if gen_step { "generation" } else if a.elite { "education" } else { "initial" },
                    allowed,
                    md.hist.iter().filter(|x| **x).count() as f64 / 100.0,
                    pr.target
                ),
            );
        }
        if updated && !(b.pen >= 1e-4 * 0.999999 && b.pen <= 1e7 * 1.000001) {
            w.found.v("C18", "range", format!("penalty {} after an update", b.pen));
        }
        if updated && !reset {
            for (k, i) in ga.population.infeasible.population.iter().enumerate() {
                let c = inst.pen_cost(&i.phenotype, rounded, b.pen);
                if (c - i.penalized_cost()).abs() > inst.tol_pen(c, b.pen) {
                    w.found.v("C18", "recost", format!("infeasible member {} is filed under {} but costs {} at penalty {}", k, i.penalized_cost(), c, b.pen));
                }
            }
        }
        if reset {
            md.hist = vec![true; 100];
            md.next_update = a.iterations;
        }
    }
    // ---- C14
    if prop == "C14" && pr.edu_time {
        let d = (pr.limit as f64 * pr.edu_fraction * 1e9) as u64;
        if !a.elite && b.elite && md.edu_start.is_none() {
            md.edu_start = Some(b.now);
            // a little later than the product in floating point says
            w.late_after = Some(b.now + d + 2_000);
            w.late_moves = 0;
        }
        if let Some(ts) = md.edu_start {
            if a.elite && !md.edu_done {
                if !b.elite {
                    md.edu_done = true;
                    md.edu_natural = true;
                    if a.now + 20_000 < ts + d && a.now < ts + d {
                        w.found.v("C14", "early", format!("education of {} ns ended {} ns after its start", d, a.now - ts));
                    }
                } else if b.term {
                    md.edu_done = true;
                }
                if w.late_moves > 1100 {
                    w.found.v("C14", "late", format!("{} education moves were made after its {} ns had passed", w.late_moves, d));
                }
                // the step after the batch in which it became due must end it
            } else if md.edu_natural && !a.elite && b.elite && md.resets == 0 {
                w.found.v("C14", "again", "education started a second time".into());
            }
            if md.edu_natural && !b.term && !a.term && b.num_init < pr.initial && b.num_init == a.num_init && !a.elite && md.resets == 0 && b.draws == a.draws && a.num_init > 0 {
                w.found.v("C14", "no-start", "the initial population does not progress after education".into());
            }
            if md.edu_done && md.resets > 0 {
                w.late_after = None;
            }
        }
        if el_a >= lim_ns && !b.term {
            w.found.v("C14", "own-deadline", "the run's own deadline passed but a step was started".into());
        }
    }
}
