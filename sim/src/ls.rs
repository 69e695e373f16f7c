//! C19: local search driven through histories of calls on one object; its results judged by trying
//! every move from scratch.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{Individual, Split};
use hybridcvrp::solver::improvement::LocalSearch;
use hybridcvrp::solver::Context;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        gen,
        run,
        quick: 100000,
        thorough: 1000000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x metric x enabled moves x granularity x a history of local-search calls on one object (fresh splits, random, single-route and perturbed solutions, penalties and multipliers changed in between); after each call every enabled move between a customer and each of its nearest customers is tried from scratch on the result; non-trivial: a call changed its solution and moves were tried on the result",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
pub const MOVES: [&str; 9] = ["relocate_single", "relocate_double", "relocate_double_reverse", "swap_one_with_one", "swap_two_with_one", "swap_two_with_two", "two_opt_intra_reverse", "two_opt_inter_reverse", "two_opt_inter"];
/// a history of calls
pub fn gen_ops(r: &mut R, s: &mut Scn, max: usize) {
    let k = r.us(1, max + 1);
    let ops: Vec<Value> = (0..k)
        .map(|_| {
            json!({"start": r.range(0, 6), "seed": r.range(0, 1_000_000), "mult": *r.pick(&[1.0, 1.0, 10.0]),
                   "pen": *r.pick(&[1.0, 1.0, 1.0, 0.1, 0.85, 1.2, 10.0, 100.0, 0.001])})
        })
        .collect();
    s.set("ops", Value::Array(ops));
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Feasible, Kind::Tight, Kind::Loose, Kind::Edge][(i % 5) as usize];
    let (mut r, mut s) = base("C19", seed, kind, 45);
    s.kind = "ls".into();
    gen_ops(&mut r, &mut s, 6);
    if r.p(0.5) {
        let n = s.inst().n() as u64;
        s.c("local_search_granularity", json!(*r.pick(&[1u64, 2, 4, n.max(1), 2 * n + 1])));
    }
    if i % 7 == 2 && s.inst().lower.is_none() && !s.inst().xy.is_empty() {
        // customers in the direction where angles begin, and where they turn over
        let inst = s.inst.as_mut().unwrap();
        let (n, at) = (inst.n(), inst.xy[0]);
        for _ in 0..r.us(1, 5) {
            let c = r.us(1, n + 1);
            let far = (inst.xy[c].0 - at.0).abs() + 1.0;
            inst.xy[c] = if r.p(0.7) { (at.0 + far, at.1) } else { (at.0 - far, at.1) };
        }
        if r.p(0.8) {
            s.c("round_distances", json!(false));
            s.c("swap_star", json!(true));
        }
    }
    s
}
/// a solution for the next call
pub fn start(ctx: &Context, inst: &Inst, op: &Value, split: &mut Split, last: &Option<Individual>) -> Individual {
    let mut r = R::new(op["seed"].as_u64().unwrap_or(0) ^ 0x15);
    let vehicles = ctx.config.borrow().num_vehicles as usize;
    let mut ind = Individual::new_random(ctx, 0);
    let mut kind = op["start"].as_u64().unwrap_or(0);
    if kind >= 4 && last.is_none() {
        kind -= 4;
    }
    match kind {
        0 => {
            split.run(ctx, &mut ind, r.range(1, vehicles as u64 + 1));
            return ind;
        }
        4 => return last.clone().unwrap(),
        5 => {
            // a few customers elsewhere, some routes turned round or exchanged
            ind = last.clone().unwrap();
            for _ in 0..r.us(1, 5) {
                let a = r.us(0, vehicles);
                let b = r.us(0, vehicles);
                match r.us(0, 4) {
                    0 => ind.phenotype.swap(a, b),
                    1 => ind.phenotype[a].reverse(),
                    2 => {
                        let j = r.us(0, ind.phenotype[a].len() + 1);
                        let tail = ind.phenotype[a].split_off(j);
                        ind.phenotype[b].extend(tail);
                    }
                    _ => {
                        let n = ind.phenotype[a].len();
                        if n > 0 {
                            let c = ind.phenotype[a].remove(r.us(0, n));
                            let j = r.us(0, ind.phenotype[b].len() + 1);
                            ind.phenotype[b].insert(j, c);
                        }
                    }
                }
            }
        }
        k => {
            let mut c: Vec<usize> = (1..=inst.n()).collect();
            r.shuffle(&mut c);
            let m = match k {
                1 => r.us(1, vehicles + 1),
                2 => 1,
                _ => vehicles,
            };
            ind.phenotype = vec![vec![]; vehicles];
            for x in c {
                ind.phenotype[r.us(0, m)].push(x);
            }
            if r.p(0.3) {
                r.shuffle(&mut ind.phenotype);
            }
        }
    }
    ind.genotype = ind.phenotype.iter().flatten().copied().collect();
    ind.evaluate(ctx);
    ind
}
/// the penalty of the next call
pub fn set_pen(ctx: &Context, op: &Value) {
    let f = op["pen"].as_f64().unwrap_or(1.0);
    let mut c = ctx.config.borrow_mut();
    c.penalty_capacity = (c.penalty_capacity * f).clamp(1e-4, 1e5);
}
pub fn conserved(inst: &Inst, ind: &Individual, rounded: bool, pen: f64) -> Option<(&'static str, String)> {
    if let Some(m) = inst.partition_err(&ind.phenotype) {
        return Some(("partition", m));
    }
    let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
    if flat != ind.genotype {
        return Some(("genotype", format!("the giant tour {:?} is not that of the routes {:?}", ind.genotype, ind.phenotype)));
    }
    let want = inst.pen_cost(&ind.phenotype, rounded, pen);
    if !((want - ind.penalized_cost()).abs() <= inst.tol_pen(want, pen)) {
        return Some(("cost", format!("penalised cost {} but its routes cost {} at penalty {}", ind.penalized_cost(), want, pen)));
    }
    let over = inst.overload(&ind.phenotype);
    if ind.is_feasible() != (over <= inst.tol_load()) && (over < 1e-7 || over > 1e-5) {
        return Some(("feasible", format!("called feasible: {}, overload {}", ind.is_feasible(), over)));
    }
    None
}
/// an improving move between a customer and one of its nearest customers
pub fn improving(s: &Scn, inst: &Inst, routes: &[Vec<usize>], pen: f64, tried: &mut u64) -> Option<(String, String)> {
    let rounded = s.rounded();
    let n = inst.n();
    let gran = (s.cu("local_search_granularity", 20) as usize).min(200);
    let defaults = [true, true, false, true, true, true, true, true, true];
    let on: Vec<bool> = MOVES.iter().zip(defaults.iter()).map(|(m, d)| s.cb(m, *d)).collect();
    let mut at = vec![(0usize, 0usize); n + 1];
    for (ri, r) in routes.iter().enumerate() {
        for (p, &c) in r.iter().enumerate() {
            at[c] = (ri, p);
        }
    }
    let cost = |r: &[usize]| inst.route_len(r, rounded) + pen * (inst.load(r) - inst.cap).max(0.0);
    let old: Vec<f64> = routes.iter().map(|r| cost(r)).collect();
    for u in 1..=n {
        // in the list of u for certain: fewer others at most as far than the list is long
        let mut ds: Vec<f64> = (1..=n).filter(|&w| w != u).map(|w| inst.dist(u, w, rounded)).collect();
        ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for v in 1..=n {
            if v == u {
                continue;
            }
            let d = inst.dist(u, v, rounded);
            let closer = ds.iter().take_while(|&&x| x <= d + 1e-9).count();
            if closer > gran {
                continue;
            }
            let (ru, pu) = at[u];
            let (rv, pv) = at[v];
            let (a, b) = (&routes[ru], &routes[rv]);
            let same = ru == rv;
            if pv == 0 {
                // directly after the depot, where the neighbour comes first on its route
                for m in [0usize, 1, 2, 7, 8] {
                    if !on[m] {
                        continue;
                    }
                    let k = if m == 0 { 1 } else { 2 };
                    let mut na = a.clone();
                    let mut nb = b.clone();
                    if m <= 2 {
                        if pu + k > a.len() || (same && pu == 0) {
                            continue;
                        }
                        let mut seq: Vec<usize> = na.drain(pu..pu + k).collect();
                        if m == 2 {
                            seq.reverse();
                        }
                        if same { na.splice(0..0, seq) } else { nb.splice(0..0, seq) };
                    } else {
                        if same {
                            continue;
                        }
                        let tail = na.split_off(pu + 1);
                        if m == 7 {
                            nb.splice(0..0, tail.into_iter().rev());
                        } else {
                            na.extend(b);
                            nb = tail;
                        }
                    }
                    *tried += 1;
                    let before = if same { old[ru] } else { old[ru] + old[rv] };
                    let after = if same { cost(&na) } else { cost(&na) + cost(&nb) };
                    let tol = 4e-6 + 2.0 * inst.tol_pen(before.max(after), pen);
                    if after < before - tol {
                        return Some((format!("depot-{}", MOVES[m]), format!("{} of {} and the depot before {} lowers the penalised cost by {} (penalty {}): {:?} {:?} -> {:?} {:?}", MOVES[m], u, v, before - after, pen, a, b, na, nb)));
                    }
                }
            }
            for (m, name) in MOVES.iter().enumerate() {
                if !on[m] {
                    continue;
                }
                let mut na = a.clone();
                let mut nb: Vec<usize> = vec![];
                match m {
                    0..=2 => {
                        let k = if m == 0 { 1 } else { 2 };
                        if pu + k > a.len() || (same && pv + 1 == pu) || (same && pv >= pu && pv < pu + k) {
                            continue;
                        }
                        let mut seq: Vec<usize> = na.drain(pu..pu + k).collect();
                        if m == 2 {
                            seq.reverse();
                        }
                        if same {
                            let j = na.iter().position(|&c| c == v).unwrap() + 1;
                            na.splice(j..j, seq);
                        } else {
                            nb = b.clone();
                            nb.splice(pv + 1..pv + 1, seq);
                        }
                    }
                    3..=5 => {
                        let k = if m == 3 { 1 } else { 2 };
                        let l = if m == 5 { 2 } else { 1 };
                        if pu + k > a.len() || pv + l > b.len() {
                            continue;
                        }
                        // apart: neither overlapping nor adjacent
                        if same && !(pu + k < pv || pv + l < pu) {
                            continue;
                        }
                        let su: Vec<usize> = a[pu..pu + k].to_vec();
                        let sv: Vec<usize> = b[pv..pv + l].to_vec();
                        if same {
                            if pu < pv {
                                na.splice(pv..pv + l, su);
                                na.splice(pu..pu + k, sv);
                            } else {
                                na.splice(pu..pu + k, sv);
                                na.splice(pv..pv + l, su);
                            }
                        } else {
                            nb = b.clone();
                            na.splice(pu..pu + k, sv);
                            nb.splice(pv..pv + l, su);
                        }
                    }
                    6 => {
                        if !same || pu >= pv || pv == pu + 1 {
                            continue;
                        }
                        na[pu + 1..=pv].reverse();
                    }
                    7 => {
                        if same {
                            continue;
                        }
                        na = a[..=pu].to_vec();
                        na.extend(b[..=pv].iter().rev());
                        nb = a[pu + 1..].iter().rev().copied().collect();
                        nb.extend(&b[pv + 1..]);
                    }
                    _ => {
                        if same {
                            continue;
                        }
                        na = a[..=pu].to_vec();
                        na.extend(&b[pv + 1..]);
                        nb = b[..=pv].to_vec();
                        nb.extend(&a[pu + 1..]);
                    }
                }
                *tried += 1;
                let before = if same { old[ru] } else { old[ru] + old[rv] };
                let after = if same { cost(&na) } else { cost(&na) + cost(&nb) };
                // the search itself ignores gains up to 1e-6
                let tol = 4e-6 + 2.0 * inst.tol_pen(before.max(after), pen);
                if after < before - tol {
                    let what = if same { format!("route {:?} -> {:?}", a, na) } else { format!("routes {:?} {:?} -> {:?} {:?}", a, b, na, nb) };
                    return Some((name.to_string(), format!("{} of {} and {} lowers the penalised cost by {} (penalty {}): {}", name, u, v, before - after, pen, what)));
                }
            }
        }
    }
    None
}
/// an improving move into an empty route
fn opening(s: &Scn, inst: &Inst, routes: &[Vec<usize>], pen: f64, tried: &mut u64) -> Option<(String, String)> {
    if routes.iter().all(|r| !r.is_empty()) {
        return None;
    }
    let rounded = s.rounded();
    let cost = |r: &[usize]| if r.is_empty() { 0.0 } else { inst.route_len(r, rounded) + pen * (inst.load(r) - inst.cap).max(0.0) };
    for a in routes {
        let before = cost(a);
        for pu in 0..a.len() {
            for (m, d) in [(0usize, true), (1, true), (2, false), (8, true)] {
                if !s.cb(MOVES[m], d) {
                    continue;
                }
                let mut na = a.clone();
                let nb: Vec<usize> = match m {
                    8 => na.split_off(pu + 1),
                    _ => {
                        let k = if m == 0 { 1 } else { 2 };
                        if pu + k > a.len() {
                            continue;
                        }
                        let mut seq: Vec<usize> = na.drain(pu..pu + k).collect();
                        if m == 2 {
                            seq.reverse();
                        }
                        seq
                    }
                };
                *tried += 1;
                let after = cost(&na) + cost(&nb);
                let tol = 4e-6 + 2.0 * inst.tol_pen(before.max(after), pen);
                if after < before - tol {
                    return Some((format!("empty-{}", MOVES[m]), format!("{} of {} into an empty route lowers the penalised cost by {} (penalty {}): {:?} -> {:?} {:?}", MOVES[m], a[pu], before - after, pen, a, na, nb)));
                }
            }
        }
    }
    None
}
/// whether two routes surround parts of each other seen from the depot, for certain: sorted by angle their
/// customers alternate, so that any two sectors that hold them have a direction in common
fn entwined(inst: &Inst, a: &[usize], b: &[usize]) -> bool {
    const TURN: f64 = 2.0 * std::f64::consts::PI;
    let angle = |c: usize| (inst.xy[c].1 - inst.xy[0].1).atan2(inst.xy[c].0 - inst.xy[0].0).rem_euclid(TURN);
    let mut p: Vec<(f64, bool)> = a.iter().map(|&c| (angle(c), true)).chain(b.iter().map(|&c| (angle(c), false))).collect();
    p.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let near = |x: f64, y: f64| {
        let d = (x - y).abs();
        d.min(TURN - d) < 4e-4
    };
    // directions are told apart up to a rounding
    let q: Vec<bool> = p.iter().filter(|x| p.iter().all(|y| y.1 == x.1 || !near(x.0, y.0))).map(|x| x.1).collect();
    (0..q.len()).filter(|&i| q[i] != q[(i + 1) % q.len()]).count() >= 4
}
/// an improving exchange of two customers of two such routes, each put anywhere, or an improving move of one
fn exchange(s: &Scn, inst: &Inst, routes: &[Vec<usize>], pen: f64, tried: &mut u64) -> Option<(String, String)> {
    if !s.cb("swap_star", true) || s.rounded() || inst.lower.is_some() || inst.xy.is_empty() {
        return None;
    }
    let cost = |len: f64, load: f64| len + pen * (load - inst.cap).max(0.0);
    let d = |x: usize, y: usize| inst.dist(x, y, false);
    // cheapest way to put c into r
    let put = |c: usize, r: &[usize]| {
        let mut best = f64::INFINITY;
        for i in 0..=r.len() {
            let p = if i == 0 { 0 } else { r[i - 1] };
            let q = if i == r.len() { 0 } else { r[i] };
            let x = d(p, c) + d(c, q) - if p == q { 0.0 } else { d(p, q) };
            if x < best {
                best = x;
            }
        }
        best
    };
    let without = |r: &[usize], i: usize| {
        let mut v = r.to_vec();
        v.remove(i);
        v
    };
    let len = |r: &[usize]| if r.is_empty() { 0.0 } else { inst.route_len(r, false) };
    for i in 0..routes.len() {
        for j in i + 1..routes.len() {
            let (a, b) = (&routes[i], &routes[j]);
            if a.len() < 2 || b.len() < 2 || !entwined(inst, a, b) {
                continue;
            }
            let (la, lb) = (inst.load(a), inst.load(b));
            let (da, db) = (len(a), len(b));
            let before = cost(da, la) + cost(db, lb);
            let ra: Vec<Vec<usize>> = (0..a.len()).map(|k| without(a, k)).collect();
            let rb: Vec<Vec<usize>> = (0..b.len()).map(|k| without(b, k)).collect();
            let ea: Vec<f64> = ra.iter().map(|r| len(r)).collect();
            let eb: Vec<f64> = rb.iter().map(|r| len(r)).collect();
            let tol = 4e-6 + 4.0 * inst.tol_pen(before, pen);
            for x in 0..a.len() {
                let q = inst.d[a[x]];
                *tried += 1;
                let after = cost(ea[x], la - q) + cost(db + put(a[x], b), lb + q);
                if after < before - tol {
                    return Some(("star-move".into(), format!("moving {} into the entwined route lowers the penalised cost by {} (penalty {}): {:?} {:?}", a[x], before - after, pen, a, b)));
                }
            }
            for y in 0..b.len() {
                let q = inst.d[b[y]];
                *tried += 1;
                let after = cost(da + put(b[y], a), la + q) + cost(eb[y], lb - q);
                if after < before - tol {
                    return Some(("star-move".into(), format!("moving {} into the entwined route lowers the penalised cost by {} (penalty {}): {:?} {:?}", b[y], before - after, pen, a, b)));
                }
            }
            for x in 0..a.len() {
                for y in 0..b.len() {
                    let q = inst.d[b[y]] - inst.d[a[x]];
                    *tried += 1;
                    let after = cost(ea[x] + put(b[y], &ra[x]), la + q) + cost(eb[y] + put(a[x], &rb[y]), lb - q);
                    if after < before - tol {
                        return Some(("star-swap".into(), format!("exchanging {} and {} of entwined routes lowers the penalised cost by {} (penalty {}): {:?} {:?}", a[x], b[y], before - after, pen, a, b)));
                    }
                }
            }
        }
    }
    None
}
pub fn run(s: &Scn) -> Out {
    calls(s, "C19", &mut |_, _, _| {})
}
pub type Hook<'a> = &'a mut dyn FnMut(&mut LocalSearch, &Individual, f64);
/// the calls of the scenario on one object; `before` sees the object before each of them
pub fn calls(s: &Scn, prop: &str, before: Hook) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst();
    let rounded = s.rounded();
    let mut found = Found(vec![]);
    let mut tr = H::new();
    let (mut tried, mut openings, mut stars, mut changed, mut done) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let ops = s.par.get("ops").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut ls = LocalSearch::new(&ctx, 1.0);
        let mut split = Split::new(&ctx);
        let mut last: Option<Individual> = None;
        for (k, op) in ops.iter().enumerate() {
            set_pen(&ctx, op);
            let mult = op["mult"].as_f64().unwrap_or(1.0);
            let mut ind = start(&ctx, inst, op, &mut split, &last);
            ind.evaluate(&ctx);
            let (pen, cost0, from) = outside(|| {
                let pen = ctx.config.borrow().penalty_capacity;
                if let Some((k2, m)) = conserved(inst, &Individual { genotype: ind.phenotype.iter().flatten().copied().collect(), ..ind.clone() }, rounded, pen) {
                    // not the doing of the local search
                    if k2 == "partition" {
                        panic!("start solution: {}", m);
                    }
                }
                before(&mut ls, &ind, pen * mult);
                (pen, inst.pen_cost(&ind.phenotype, rounded, pen * mult), ind.phenotype.clone())
            });
            ls.run(&ctx, &mut ind, mult);
            outside(|| {
                done += 1;
                if let Some((k2, m)) = conserved(inst, &ind, rounded, pen) {
                    found.v("C13", &format!("ls-{}", k2), format!("call {}: {}", k, m));
                    return;
                }
                let p = pen * mult;
                let cost1 = inst.pen_cost(&ind.phenotype, rounded, p);
                tr.f(cost1);
                if cost1 > cost0 + inst.tol_pen(cost0.max(cost1), p) {
                    found.v("C13", "ls-worse", format!("call {}: local search was given a solution of penalised cost {} and returned one of {} (penalty {}): {:?} -> {:?}", k, cost0, cost1, p, from, ind.phenotype));
                }
                if cost1 < cost0 - 1e-6 {
                    changed += 1;
                }
                if prop == "C19" {
                    if let Some((k2, m)) = improving(s, inst, &ind.phenotype, p, &mut tried) {
                        found.v("C19", &k2, format!("call {}: {}", k, m));
                    }
                    if let Some((k2, m)) = exchange(s, inst, &ind.phenotype, p, &mut stars) {
                        found.v("C19", &k2, format!("call {}: {}", k, m));
                    }
                    // empty routes are looked at once the solution has changed
                    let sorted = |r: &[Vec<usize>]| {
                        let mut v: Vec<Vec<usize>> = r.iter().filter(|x| !x.is_empty()).cloned().collect();
                        v.sort();
                        v
                    };
                    if sorted(&from) != sorted(&ind.phenotype) {
                        if let Some((k2, m)) = opening(s, inst, &ind.phenotype, p, &mut openings) {
                            found.v("C19", &k2, format!("call {}: {}", k, m));
                        }
                    }
                }
            });
            if !found.0.is_empty() {
                break;
            }
            last = Some(ind);
        }
    });
    account(&mut o, &s.env, &st);
    o.inc("calls", done);
    o.inc("changed", changed);
    o.inc("moves_tried", tried);
    o.inc("moves_into_empty_routes_tried", openings);
    o.inc("exchanges_between_entwined_routes_tried", stars);
    o.viol = found.take(prop);
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "local search");
        }
    }
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = changed > 0 && (prop != "C19" || tried > 0);
    o
}
