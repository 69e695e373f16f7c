//! C25: genetic searches whose population is read after every step; fitness, survivors, parents and crossover are
//! compared with a reference model of the algorithm's rules.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::props::*;
use crate::rng::H;
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, SubPopulation};
use hybridcvrp::solver::{Context, Metaheuristic};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        gen,
        run,
        quick: 60000,
        thorough: 500000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x configuration (sizes, elites, nearest members, tournament, restarts, penalty updates, local search on or off) x a genetic search; after every step each member's fitness, the members that left and, where nothing else changed the child, its origin in two members are compared with a reference model; at the end tournaments are sampled; shares within bounds no correct run leaves with probability above e^-25; non-trivial: a part of the population was shrunk or a crossover judged",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Tight, Kind::Any, Kind::Feasible, Kind::Tight, Kind::Edge][(i % 5) as usize];
    let (mut r, mut s) = base("C25", seed, kind, 18);
    s.kind = "selection".into();
    // without local search the children show what crossover made of their parents
    let bare = i % 2 == 0;
    s.c("ls_enabled", json!(!bare));
    if bare {
        s.c("rr_mutation", json!(false));
        s.c("linear_split", json!(r.p(0.9)));
        if r.p(0.6) {
            // few long routes
            let all: f64 = s.inst().d.iter().sum();
            let cap = (all / r.range(1, 3) as f64).ceil();
            if let Some(x) = s.inst.as_mut() {
                x.cap = x.cap.max(cap);
            }
        }
    } else if r.p(0.7) {
        s.c("rr_mutation", json!(false));
    }
    s.c("repair_probability", json!(*r.pick(&[0.0, 0.0, 0.5])));
    s.c("min_population_size", json!(*r.pick(&[1u64, 2, 3, 4, 6, 9, 12, 25])));
    s.c("population_lambda", json!(*r.pick(&[1u64, 1, 2, 3, 5, 8])));
    s.c("initial_individuals", json!(r.range(1, 30)));
    s.c("num_elites", json!(*r.pick(&[0u64, 1, 2, 3, 4, 6, 10, 30])));
    s.c("num_diversity_closest", json!(*r.pick(&[1u64, 2, 3, 5, 8])));
    s.c("tournament_size", json!(*r.pick(&[1u64, 2, 2, 3, 4, 6])));
    s.steps = r.range(30, 160);
    s.set("samples", json!(*r.pick(&[0u64, 200, 600])));
    s
}
#[derive(Clone)]
struct M {
    num: u64,
    cost: f64,
    fit: f64,
    ok: bool,
    routes: usize,
    genes: Vec<usize>,
    succ: Vec<usize>,
    pred: Vec<usize>,
}
impl M {
    fn of(x: &Individual) -> M {
        let n = x.genotype.len();
        let (mut succ, mut pred) = (vec![0; n + 1], vec![0; n + 1]);
        for r in x.phenotype.iter() {
            for (i, &c) in r.iter().enumerate() {
                if c <= n {
                    pred[c] = if i > 0 { r[i - 1] } else { 0 };
                    succ[c] = if i + 1 < r.len() { r[i + 1] } else { 0 };
                }
            }
        }
        M { num: x.number, cost: x.penalized_cost(), fit: x.fitness, ok: x.is_feasible(), routes: x.phenotype.iter().filter(|r| !r.is_empty()).count(), genes: x.genotype.clone(), succ, pred }
    }
}
/// the giant tour goes through the routes, and the routes lie around the depot in order of the direction of their
/// centres
pub fn around(inst: &Inst, x: &Individual) -> Option<String> {
    let flat: Vec<usize> = x.phenotype.iter().flatten().copied().collect();
    if flat != x.genotype {
        return Some(format!("the giant tour {:?} is not that of the routes {:?}", x.genotype, x.phenotype));
    }
    if inst.lower.is_some() || inst.xy.is_empty() || flat.iter().any(|&c| c >= inst.xy.len()) {
        return None;
    }
    let scale = inst.xy.iter().map(|p| p.0.abs().max(p.1.abs())).fold(1e-9, f64::max);
    let mut last: Option<(f64, &Vec<usize>)> = None;
    for q in x.phenotype.iter().filter(|q| !q.is_empty()) {
        let k = q.len() as f64;
        let mx = q.iter().map(|&c| inst.xy[c].0).sum::<f64>() / k - inst.xy[0].0;
        let my = q.iter().map(|&c| inst.xy[c].1).sum::<f64>() / k - inst.xy[0].1;
        let e = 1e-9 * scale;
        if (mx.abs() < e && my.abs() < e) || (mx < 0.0 && my.abs() < e) {
            // at the depot, or where the angle turns over: anywhere
            continue;
        }
        let a = my.atan2(mx);
        if let Some((b, p)) = last {
            if a < b - 1e-6 {
                return Some(format!("the route {:?} at {} degrees comes after {:?} at {}", q, a.to_degrees(), p, b.to_degrees()));
            }
        }
        last = Some((a, q));
    }
    None
}
/// links of the one that are broken in the other, whatever the direction of the routes
fn broken(a: &M, b: &M) -> i64 {
    let mut d = 0;
    for c in 1..a.succ.len() {
        d += (a.succ[c] != b.succ[c] && a.succ[c] != b.pred[c]) as i64;
        d += (a.pred[c] == 0 && b.pred[c] != 0 && b.succ[c] != 0) as i64;
    }
    d
}
fn dist(a: &M, b: &M) -> i64 {
    // seen from the one that was there first
    if a.num < b.num {
        broken(a, b)
    } else {
        broken(b, a)
    }
}
struct Rules {
    min: usize,
    max: usize,
    elites: usize,
    closest: usize,
}
/// lowest and highest fitness each member may have, by its place and the order of equal distances
fn fitness(p: &[&M], k: &Rules) -> Vec<(f64, f64)> {
    let n = p.len();
    if n == 1 {
        return vec![(0.0, 0.0)];
    }
    let near: Vec<f64> = (0..n)
        .map(|i| {
            let mut v: Vec<i64> = (0..n).filter(|&j| j != i).map(|j| dist(p[i], p[j])).collect();
            v.sort();
            let m = k.closest.min(n - 1);
            v[..m].iter().sum::<i64>() as f64 / m as f64
        })
        .collect();
    let f = n as f64 - 1.0;
    (0..n)
        .map(|i| {
            let c = i as f64 / f;
            if n <= k.elites {
                return (c, c);
            }
            let w = 1.0 - k.elites as f64 / n as f64;
            let lo = near.iter().filter(|&&x| x > near[i] + 1e-12).count() as f64;
            let hi = near.iter().filter(|&&x| x >= near[i] - 1e-12).count() as f64 - 1.0;
            (c + w * lo / f, c + w * hi / f)
        })
        .collect()
}
/// what may be left of the members after `child` came, or None if there are too many possibilities
fn survivors(pre: &[M], child: &M, k: &Rules) -> Option<BTreeSet<Vec<u64>>> {
    let mut out = BTreeSet::new();
    if pre.iter().any(|m| dist(m, child) == 0) {
        out.insert(pre.iter().map(|m| m.num).collect());
        return Some(out);
    }
    const E: f64 = 1e-5;
    let mut now: BTreeSet<Vec<usize>> = BTreeSet::new();
    let all: Vec<&M> = pre.iter().chain(std::iter::once(child)).collect();
    for at in 0..=pre.len() {
        let rel = |a: f64, b: f64| a <= b + E + 1e-9 * b.abs();
        if pre[..at].iter().all(|m| rel(m.cost, child.cost)) && pre[at..].iter().all(|m| rel(child.cost, m.cost)) {
            let mut v: Vec<usize> = (0..pre.len()).collect();
            v.insert(at, pre.len());
            now.insert(v);
        }
    }
    if pre.len() + 1 >= k.max {
        let mut size = pre.len() + 1;
        while size > k.min.max(1) {
            let mut next = BTreeSet::new();
            for v in &now {
                let p: Vec<&M> = v.iter().map(|&i| all[i]).collect();
                let fit = fitness(&p, k);
                let top = fit.iter().skip(1).map(|x| x.0).fold(-1.0, f64::max);
                for i in 1..v.len() {
                    if fit[i].1 >= top - 1e-9 {
                        let mut w = v.clone();
                        w.remove(i);
                        next.insert(w);
                    }
                }
            }
            if next.len() > 400 {
                return None;
            }
            now = next;
            size -= 1;
        }
    }
    for v in now {
        let mut w: Vec<u64> = v.iter().map(|&i| all[i].num).collect();
        w.sort();
        out.insert(w);
    }
    Some(out)
}
/// could `c` be made of a stretch of `a` in its place and the rest in the order of `b`?
fn crossed(c: &[usize], a: &[usize], b: &[usize], zone: &mut Vec<bool>) -> bool {
    let n = c.len();
    if n < 2 {
        return c == a;
    }
    for s in 0..n {
        if c[s] != a[s] || c[(s + 1) % n] != a[(s + 1) % n] {
            continue;
        }
        zone.iter_mut().for_each(|x| *x = false);
        zone[c[s]] = true;
        for len in 2..=n {
            let e = (s + len - 1) % n;
            if c[e] != a[e] {
                break;
            }
            zone[c[e]] = true;
            let mut at = (e + 1) % n;
            let mut same = true;
            for &g in b {
                if !zone[g] {
                    if c[at] != g {
                        same = false;
                        break;
                    }
                    at = (at + 1) % n;
                }
            }
            if same {
                return true;
            }
        }
    }
    false
}
fn orders(m: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..m {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                (0..=v.len()).map(move |p| {
                    let mut w = v.clone();
                    w.insert(p, k);
                    w
                })
            })
            .collect();
    }
    out
}
/// chance of each member to win a tournament of `k`
fn chances(fit: &[f64], k: u64) -> Vec<f64> {
    let n = fit.len() as f64;
    fit.iter()
        .map(|x| {
            let ge = fit.iter().filter(|y| *y >= x).count() as f64;
            let gt = fit.iter().filter(|y| *y > x).count() as f64;
            ((ge / n).powi(k as i32) - (gt / n).powi(k as i32)) / (ge - gt)
        })
        .collect()
}
/// between how many hits are certain and how many possible, against what was to be expected
#[derive(Default, Clone, Copy)]
struct Share {
    sure: f64,
    maybe: f64,
    expect: f64,
    var: f64,
    n: f64,
}
impl Share {
    fn add(&mut self, sure: bool, maybe: bool, p: f64) {
        self.sure += sure as u64 as f64;
        self.maybe += maybe as u64 as f64;
        self.expect += p;
        self.var += p * (1.0 - p);
        self.n += 1.0;
    }
    fn off(&self) -> bool {
        const L: f64 = 30.0;
        let b = (2.0 * (self.var * L).sqrt() + L).min((self.n * L / 2.0).sqrt()) + 1e-6;
        self.sure > self.expect + b || self.maybe < self.expect - b
    }
    fn say(&self) -> String {
        format!("{} to {} of {} times, where {:.1} are to be expected", self.sure, self.maybe, self.n, self.expect)
    }
}
fn part(p: &SubPopulation) -> Vec<M> {
    p.population.iter().map(M::of).collect()
}
fn nums(p: &[M]) -> Vec<u64> {
    let mut v: Vec<u64> = p.iter().map(|m| m.num).collect();
    v.sort();
    v
}
fn tell(p: &[M]) -> String {
    let mut t = String::new();
    for m in p.iter().take(30) {
        t += &format!(" #{} {:.4} fitness {:.6} {:?};", m.num, m.cost, m.fit, m.genes);
    }
    t
}
struct St {
    inst: Inst,
    rules: Rules,
    found: Found,
    judged: [u64; 5],
    both_same: Share,
    first_worse: Share,
    second_worse: Share,
    first_infeasible: Share,
    second_infeasible: Share,
}
impl St {
    fn v(&mut self, k: &str, m: String) {
        self.found.v("C25", k, m);
    }
    fn check_fitness(&mut self, p: &[M], name: &str, step: u64) {
        if p.is_empty() {
            return;
        }
        let r: Vec<&M> = p.iter().collect();
        let f = fitness(&r, &self.rules);
        self.judged[0] += p.len() as u64;
        for (i, m) in p.iter().enumerate() {
            if !(m.fit >= f[i].0 - 1e-9 && m.fit <= f[i].1 + 1e-9) {
                let t = format!("step {}: number {} of the {} {} members has fitness {} instead of {} to {}:{}", step, i, p.len(), name, m.fit, f[i].0, f[i].1, tell(p));
                self.v("fitness", t);
                return;
            }
        }
        // equal distances share their places
        let (a, b): (f64, f64) = (p.iter().map(|m| m.fit).sum(), f.iter().map(|x| (x.0 + x.1) / 2.0).sum());
        if (a - b).abs() > 1e-7 {
            let t = format!("step {}: the fitness of the {} members sums up to {} instead of {}:{}", step, name, a, b, tell(p));
            self.v("fitness-sum", t);
        }
    }
    /// the child of a generation without anything that changes it afterwards
    fn check_cross(&mut self, pre: &[Vec<M>; 2], child: &Individual, linear: bool, lower: usize, fleet: usize, tour: u64, step: u64) {
        let all: Vec<&M> = pre[0].iter().chain(pre[1].iter()).collect();
        let n = self.inst.n();
        let routes: Vec<&Vec<usize>> = child.phenotype.iter().filter(|r| !r.is_empty()).collect();
        if routes.len() > 4 || all.is_empty() || all.len() > 45 {
            return;
        }
        if all.iter().any(|m| m.genes.len() != n) || routes.iter().map(|r| r.len()).sum::<usize>() != n {
            return;
        }
        let mut zone = vec![false; n + 1];
        let mut pairs: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut limited = false;
        for o in orders(routes.len()) {
            let c: Vec<usize> = o.iter().flat_map(|&i| routes[i].iter().copied()).collect();
            for (i, a) in all.iter().enumerate() {
                if n > 1 && !(0..n).any(|s| c[s] == a.genes[s] && c[(s + 1) % n] == a.genes[(s + 1) % n]) {
                    continue;
                }
                for (j, b) in all.iter().enumerate() {
                    if !pairs.contains(&(i, j)) && crossed(&c, &a.genes, &b.genes, &mut zone) {
                        if linear && routes.len() > a.routes.max(lower).min(fleet) {
                            limited = true;
                            continue;
                        }
                        pairs.insert((i, j));
                    }
                }
            }
        }
        self.judged[1] += 1;
        if pairs.is_empty() {
            let why = if limited { "has more routes than its first parent" } else { "is no crossover of two members" };
            let t = format!("step {}: the child {:?} {}: {} |{}", step, child.phenotype, why, tell(&pre[0]), tell(&pre[1]));
            self.v(if limited { "routes" } else { "crossover" }, t);
            return;
        }
        let fit: Vec<f64> = all.iter().map(|m| m.fit).collect();
        let p = chances(&fit, tour);
        let mut sorted = fit.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mid = sorted[fit.len() / 2];
        let worse: Vec<bool> = fit.iter().map(|f| *f >= mid).collect();
        let infeas: Vec<bool> = (0..fit.len()).map(|i| i >= pre[0].len()).collect();
        let same: f64 = p.iter().map(|x| x * x).sum();
        let a = pairs.iter().all(|x| x.0 == x.1);
        let b = pairs.iter().any(|x| x.0 == x.1);
        self.both_same.add(a, b, same);
        let sum = |w: &Vec<bool>| -> f64 { p.iter().zip(w).filter(|x| *x.1).map(|x| *x.0).sum() };
        let (pw, pi) = (sum(&worse), sum(&infeas));
        self.first_worse.add(pairs.iter().all(|x| worse[x.0]), pairs.iter().any(|x| worse[x.0]), pw);
        self.second_worse.add(pairs.iter().all(|x| worse[x.1]), pairs.iter().any(|x| worse[x.1]), pw);
        self.first_infeasible.add(pairs.iter().all(|x| infeas[x.0]), pairs.iter().any(|x| infeas[x.0]), pi);
        self.second_infeasible.add(pairs.iter().all(|x| infeas[x.1]), pairs.iter().any(|x| infeas[x.1]), pi);
    }
}
/// winners of many tournaments among the members there are
fn sample(st: &mut St, ctx: &Context, ga: &GeneticAlgorithm, times: u64, tour: u64) -> u64 {
    let all: Vec<M> = outside(|| [part(&ga.population.feasible), part(&ga.population.infeasible)].concat());
    if all.is_empty() || times == 0 {
        return 0;
    }
    let mut hits: BTreeMap<u64, u64> = BTreeMap::new();
    for _ in 0..times {
        *hits.entry(ga.population.get_parent(ctx).number).or_default() += 1;
    }
    outside(|| {
        let fit: Vec<f64> = all.iter().map(|m| m.fit).collect();
        let p = chances(&fit, tour);
        let mut by: Vec<usize> = (0..all.len()).collect();
        by.sort_by(|&a, &b| fit[a].partial_cmp(&fit[b]).unwrap());
        let (mut h, mut q) = (0.0, 0.0);
        let t = times as f64;
        for &i in &by {
            let one = *hits.get(&all[i].num).unwrap_or(&0) as f64;
            h += one;
            q += p[i];
            for (seen, prob, what) in [(one, p[i], "it"), (h, q, "it or one of better fitness")] {
                let s = Share { sure: seen, maybe: seen, expect: prob * t, var: t * prob * (1.0 - prob).max(0.0), n: t };
                if s.off() {
                    st.v("tournament", format!("member #{} of fitness {}: {} won tournaments of {} {}: {}", all[i].num, fit[i], what, tour, s.say(), tell(&all)));
                    return 0;
                }
            }
        }
        times
    })
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst().clone();
    let tour = s.cu("tournament_size", 2);
    let bare = !s.cb("ls_enabled", true) && !s.cb("rr_mutation", true);
    let linear = s.cb("linear_split", true);
    let min = s.cu("min_population_size", 25) as usize;
    let mut st = St {
        rules: Rules { min, max: min + s.cu("population_lambda", 40) as usize, elites: s.cu("num_elites", 4) as usize, closest: s.cu("num_diversity_closest", 5) as usize },
        inst,
        found: Found(vec![]),
        judged: [0; 5],
        both_same: Share::default(),
        first_worse: Share::default(),
        second_worse: Share::default(),
        first_infeasible: Share::default(),
        second_infeasible: Share::default(),
    };
    let mut tr = H::new();
    let (res, stats) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let (lower, fleet) = outside(|| (ctx.vehicle_lower_bound() as usize, ctx.config.borrow().num_vehicles as usize));
        let mut ga = GeneticAlgorithm::new(&ctx);
        let mut pre = [vec![], vec![]];
        for step in 0..s.steps {
            let it0 = *ctx.iteration.borrow();
            let (count0, upd0) = (ga.population.total_individuals_count, ga.next_penalty_update);
            ga.iterate(&ctx);
            if ga.terminated() {
                break;
            }
            let stop = outside(|| {
                let cycle = *ctx.iteration.borrow() > it0;
                let count = ga.population.total_individuals_count;
                for x in ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()) {
                    if x.number >= count0 || count < count0 || step % 16 == 0 {
                        if let Some(m) = around(&st.inst, x) {
                            st.v("tour", format!("step {}: member #{}: {}", step, x.number, m));
                        }
                    }
                }
                let now = [part(&ga.population.feasible), part(&ga.population.infeasible)];
                for p in &now {
                    for m in p {
                        tr.f(m.cost);
                        tr.add(m.num);
                    }
                }
                if cycle && bare {
                    st.check_cross(&pre, &ga.child, linear, lower, fleet, tour, step);
                }
                let reset = count < count0 || (cycle && ga.num_initialized == 0);
                let updated = ga.next_penalty_update != upd0;
                if reset {
                } else if count != count0 {
                    let mut newest: Option<M> = None;
                    if count == count0 + 1 {
                        newest = now.iter().flatten().find(|m| m.num == count0).cloned();
                        if newest.is_none() && cycle {
                            let mut m = M::of(&ga.child);
                            m.num = count0;
                            newest = Some(m);
                        }
                        if let Some(c) = newest.clone() {
                            let me = !c.ok as usize;
                            let mut c = c;
                            if updated && me == 1 && cycle && count == count0 + 1 {
                                // as costed when it came
                                c.cost = ga.child.penalized_cost();
                            }
                            match survivors(&pre[me], &c, &st.rules) {
                                None => st.judged[4] += 1,
                                Some(sets) => {
                                    st.judged[2] += 1;
                                    st.judged[3] += (pre[me].len() + 1 >= st.rules.max && sets.iter().all(|x| x.len() < pre[me].len())) as u64;
                                    let got = nums(&now[me]);
                                    let hit = sets.iter().any(|x| {
                                        let mut x = x.clone();
                                        x.sort();
                                        x == got
                                    });
                                    if !hit {
                                        let t = format!("step {}: after #{} of cost {} {:?} came, {:?} are left of the {} members; to be left: {:?} | before:{}", step, c.num, c.cost, c.genes, got, ["feasible", "infeasible"][me], sets.iter().take(5).collect::<Vec<_>>(), tell(&pre[me]));
                                        st.v("survivors", t);
                                    }
                                }
                            }
                            if nums(&now[1 - me]) != nums(&pre[1 - me]) {
                                let t = format!("step {}: the {} members change, though #{} does not belong to them", step, ["feasible", "infeasible"][1 - me], c.num);
                                st.v("other-part", t);
                            }
                        }
                    }
                    st.check_fitness(&now[0], "feasible", step);
                    st.check_fitness(&now[1], "infeasible", step);
                } else if nums(&now[0]) != nums(&pre[0]) || nums(&now[1]) != nums(&pre[1]) {
                    let t = format!("step {}: members come or go in a step that adds none", step);
                    st.v("unasked", t);
                }
                pre = now;
                !st.found.0.is_empty()
            });
            if stop {
                break;
            }
        }
        if st.found.0.is_empty() {
            let n = sample(&mut st, &ctx, &ga, s.u("samples"), tour);
            tr.add(n);
        }
        // random starting tours
        let n = st.inst.n();
        if n > 1 && st.found.0.is_empty() && s.u("samples") > 0 {
            let times = 150;
            let mut at = vec![0.0; (n + 1) * n];
            for i in 0..times {
                let x = Individual::new_random(&ctx, i);
                outside(|| {
                    for (p, &c) in x.genotype.iter().enumerate() {
                        if c <= n && p < n {
                            at[c * n + p] += 1.0;
                        }
                    }
                });
            }
            outside(|| {
                let (t, q) = (times as f64, 1.0 / n as f64);
                for c in 1..=n {
                    for p in 0..n {
                        let x = Share { sure: at[c * n + p], maybe: at[c * n + p], expect: t * q, var: t * q * (1.0 - q), n: t };
                        if x.off() {
                            st.v("random-start", format!("random tours have customer {} at place {} {}", c, p, x.say()));
                            return;
                        }
                    }
                }
            });
        }
    });
    account(&mut o, &s.env, &stats);
    for (x, what) in [
        (st.both_same, "both parents were the same member"),
        (st.first_worse, "the first parent was of the worse half"),
        (st.second_worse, "the second parent was of the worse half"),
        (st.first_infeasible, "the first parent was infeasible"),
        (st.second_infeasible, "the second parent was infeasible"),
    ] {
        if x.off() {
            let t = format!("{} {}", what, x.say());
            st.v("parents", t);
        }
    }
    o.inc("fitness_values_judged", st.judged[0]);
    o.inc("crossovers_judged", st.judged[1]);
    o.inc("additions_judged", st.judged[2]);
    o.inc("shrinks_judged", st.judged[3]);
    o.inc("shrinks_with_too_many_ties", st.judged[4]);
    o.viol = st.found.take("C25");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "search");
        }
    }
    tr.add(stats.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = st.judged[1] + st.judged[3] > 0;
    o
}
