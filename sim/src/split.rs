//! C20: one splitter through histories of giant tours, penalties and fleet limits, against a plain
//! dynamic programme.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, Split};
use hybridcvrp::solver::Metaheuristic;
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        gen,
        run,
        quick: 100000,
        thorough: 1000000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x configuration x a history of splits on one splitter: tours of its own and of the search that uses the same splitter between them, penalties as the search moves them or set at will, fleet limits anywhere; each result against a dynamic programme of its own and against a fresh splitter; non-trivial: at least two splits were judged",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge, Kind::Loose][(i % 5) as usize];
    let (mut r, mut s) = base("C20", seed, kind, 40);
    s.kind = "split".into();
    if r.p(0.35) {
        s.c("linear_split", json!(false));
    }
    let k = r.us(1, 12);
    let ops: Vec<_> = (0..k)
        .map(|_| json!({"tour": r.range(0, 4), "seed": r.range(0, 1_000_000), "steps": r.range(0, 4), "max": r.f(), "pen": *r.pick(&[1.0, 1.0, 1.0, 0.85, 1.2, 10.0, 0.01, 1000.0])}))
        .collect();
    s.set("ops", json!(ops));
    s
}
/// least penalised cost of splitting `t` into at most `max` consecutive routes, of which none loads
/// more than `limit`; None if there is no such split
fn best(inst: &Inst, rounded: bool, pen: f64, t: &[usize], max: usize, limit: f64) -> Option<f64> {
    let n = t.len();
    let mut cur = vec![f64::INFINITY; n + 1];
    cur[0] = 0.0;
    for _ in 0..max.min(n) {
        let mut next = cur.clone();
        for i in 0..n {
            if !cur[i].is_finite() {
                continue;
            }
            let (mut load, mut len) = (0.0, 0.0);
            for j in i..n {
                load += inst.d[t[j]];
                len += if j == i { inst.dist(0, t[j], rounded) } else { inst.dist(t[j - 1], t[j], rounded) };
                if load > limit {
                    break;
                }
                let c = cur[i] + len + inst.dist(t[j], 0, rounded) + pen * (load - inst.cap).max(0.0);
                if c < next[j + 1] {
                    next[j + 1] = c;
                }
            }
        }
        cur = next;
    }
    if cur[n].is_finite() {
        Some(cur[n])
    } else {
        None
    }
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst();
    let rounded = s.rounded();
    let linear = s.cb("linear_split", true);
    let factor = s.cf("split_capacity_factor", 1.5);
    let mut found = Found(vec![]);
    let mut tr = H::new();
    let (mut judged, mut limited, mut beyond) = (0u64, 0u64, 0u64);
    let ops = s.par.get("ops").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut ga = GeneticAlgorithm::new(&ctx);
        for (k, op) in ops.iter().enumerate() {
            for _ in 0..op["steps"].as_u64().unwrap_or(0) {
                ga.iterate(&ctx);
            }
            let mut r = R::new(op["seed"].as_u64().unwrap_or(0) ^ 0x20);
            let keep = ctx.config.borrow().penalty_capacity;
            let pen = (keep * op["pen"].as_f64().unwrap_or(1.0)).clamp(1e-4, 1e5);
            ctx.config.borrow_mut().penalty_capacity = pen;
            let mut ind = Individual::new_random(&ctx, 0);
            let held: Vec<&Individual> = ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()).collect();
            match op["tour"].as_u64().unwrap_or(0) {
                0 => {}
                1 if !held.is_empty() => ind.genotype = r.pick(&held).genotype.clone(),
                2 if !held.is_empty() => {
                    // a tour of the population turned round at a random place
                    ind.genotype = r.pick(&held).genotype.clone();
                    let j = r.us(0, ind.genotype.len());
                    ind.genotype.rotate_left(j);
                }
                3 => {
                    // sweep around the depot
                    let (x0, y0) = inst.xy[0];
                    ind.genotype.sort_by(|&a, &b| {
                        let f = |c: usize| (inst.xy[c].1 - y0).atan2(inst.xy[c].0 - x0);
                        f(a).partial_cmp(&f(b)).unwrap().then(a.cmp(&b))
                    });
                }
                _ => {}
            }
            let fleet = ctx.config.borrow().num_vehicles;
            let lb = ctx.vehicle_lower_bound();
            let want = 1 + (op["max"].as_f64().unwrap_or(0.0) * fleet as f64) as u64;
            let max = want.max(lb).min(fleet) as usize;
            let tour = ind.genotype.clone();
            let mut other = ind.clone();
            ga.split.run(&ctx, &mut ind, want);
            let mut fresh = Split::new(&ctx);
            fresh.run(&ctx, &mut other, want);
            ctx.config.borrow_mut().penalty_capacity = keep;
            outside(|| {
                let routes: Vec<Vec<usize>> = ind.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
                if let Some(m) = inst.partition_err(&routes) {
                    found.v("C20", "partition", format!("split {} of {:?}: {}", k, tour, m));
                    return;
                }
                // consecutive pieces of the tour
                let mut pos = vec![0; inst.n() + 1];
                for (i, &c) in tour.iter().enumerate() {
                    pos[c] = i;
                }
                for rt in &routes {
                    if rt.windows(2).any(|w| pos[w[1]] != pos[w[0]] + 1) {
                        found.v("C20", "order", format!("split {}: route {:?} is not a piece of the tour {:?}", k, rt, tour));
                        return;
                    }
                }
                // what may be loaded: the plain splitter looks no further than its factor
                let (tight, loose) = if linear { (f64::INFINITY, f64::INFINITY) } else { (inst.cap * factor - 1e-5, inst.cap * factor + 1e-5) };
                let (ref1, ref2) = (best(inst, rounded, pen, &tour, max, tight), best(inst, rounded, pen, &tour, max, loose));
                let (hi, lo) = match (ref1, ref2) {
                    (Some(hi), Some(lo)) => (hi, lo),
                    (None, None) => {
                        // no split within the factor: the best there is
                        beyond += 1;
                        let b = best(inst, rounded, pen, &tour, max, f64::INFINITY).expect("one route");
                        (b, b)
                    }
                    _ => return, // hangs on rounding
                };
                if routes.len() > max {
                    found.v("C20", "fleet", format!("split {} of {:?} has {} routes, {} are allowed", k, tour, routes.len(), max));
                    return;
                }
                let got = inst.pen_cost(&routes, rounded, pen);
                let tol = 2e-6 * (inst.n() as f64 + 1.0) + 4.0 * inst.tol_pen(got.max(hi), pen);
                if got > hi + tol {
                    found.v("C20", "not-optimal", format!("split {} of {:?} (penalty {}, at most {} routes) costs {}, the best costs {}: {:?}", k, tour, pen, max, got, hi, routes));
                    return;
                }
                if got < lo - tol && !linear {
                    found.v("C20", "over-factor", format!("split {} of {:?} costs {}, less than the best within the load factor, {}", k, tour, got, lo));
                    return;
                }
                if best(inst, rounded, pen, &tour, inst.n(), if ref1.is_some() { tight } else { f64::INFINITY }).map_or(false, |u| u < hi - tol) {
                    limited += 1;
                }
                if other.phenotype != ind.phenotype {
                    found.v("C20", "history", format!("split {} of {:?}: {:?} from the splitter in use, {:?} from a new one", k, tour, ind.phenotype, other.phenotype));
                    return;
                }
                judged += 1;
                tr.f(got);
                tr.add(routes.len() as u64);
            });
            if !found.0.is_empty() {
                break;
            }
        }
    });
    account(&mut o, &s.env, &st);
    o.inc("splits_judged", judged);
    o.inc("fleet_binding", limited);
    o.inc("no_split_within_factor", beyond);
    o.viol = found.take("C20");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "split");
        }
    }
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = judged > 1;
    o
}
