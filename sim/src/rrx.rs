//! C26: every ruin and every recreate is compared with what the two procedures are documented to do.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::ls;
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, Split};
use hybridcvrp::solver::improvement::{Recreate, Ruin, RuinRecreate, RuinRecreateSolution};
use hybridcvrp::solver::{Context, Metaheuristic};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        gen,
        run,
        quick: 12000,
        thorough: 160000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x ruin settings x a history of ruin-and-recreate searches (or one whole genetic search) from generated solutions, watched at every ruin and recreate; what each ruin removed and where each recreate put it is explained by a seed customer, string lengths and an insertion order, or reported; the shares of lengths, counts, split strings, seeds and orders are compared with their distribution within bounds no correct run leaves with probability above e^-25; non-trivial: at least fifty ruins and recreates were explained",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Tight, Kind::Any, Kind::Feasible, Kind::Loose, Kind::Tight, Kind::Edge][(i % 6) as usize];
    let (mut r, mut s) = base("C26", seed, kind, if i % 3 == 0 { 14 } else { 30 });
    let n = s.inst().n();
    s.c("average_ruin_cardinality", json!(*r.pick(&[1u64, 2, 3, 5, 10, 15])));
    s.c("max_ruin_string_length", json!(*r.pick(&[1u64, 2, 3, 4, 6, 10])));
    s.c("rr_start_temp", json!(*r.pick(&[10.0, 1.0, 100.0, 1000.0, 30.0])));
    s.c("elite_education_start_temp", json!(*r.pick(&[50.0, 5.0, 500.0])));
    if i % 8 == 7 {
        s.kind = "ga".into();
        s.c("rr_mutation", json!(true));
        s.c("rr_probability", json!(1.0));
        s.steps = r.range(5, 60);
        return s;
    }
    s.kind = "rr".into();
    if r.p(0.65) {
        // demands and distances that differ, so that the order of insertion shows
        s.c("round_distances", json!(r.p(0.15)));
        let slack = *r.pick(&[1.02, 1.1, 1.5, 4.0]);
        let per = r.us(2, 9) as f64;
        let inst = s.inst.as_mut().unwrap();
        inst.lower = None;
        for k in 0..=n {
            inst.xy[k] = (r.us(0, 1000) as f64 + r.us(0, 1000) as f64 / 1024.0, r.us(0, 1000) as f64 + r.us(0, 1000) as f64 / 1024.0);
            inst.d[k] = if k == 0 { 0.0 } else { r.us(1, 120) as f64 };
        }
        let total: f64 = inst.d.iter().sum();
        inst.cap = (total / n as f64 * per * slack).ceil().max(inst.max_demand());
    } else if r.p(0.4) {
        // one customer on a route
        let inst = s.inst.as_mut().unwrap();
        for k in 1..=n {
            inst.d[k] = 10.0;
        }
        inst.cap = *r.pick(&[10.0, 15.0, 20.0]);
        s.c("average_ruin_cardinality", json!(*r.pick(&[1u64, 1, 2, 4])));
    } else if r.p(0.4) {
        let inst = s.inst.as_mut().unwrap();
        inst.cap = inst.d.iter().sum::<f64>() * 1.5 + 1.0;
    }
    ls::gen_ops(&mut r, &mut s, 3);
    let moves = *r.pick(&[100.0, 300.0, 300.0, 1500.0]);
    let ops = s.par.get_mut("ops").unwrap().as_array_mut().unwrap();
    for op in ops {
        op["elite"] = json!(r.p(0.2));
    }
    s.c("rr_gamma", json!(moves / n as f64));
    s.c("elite_education_gamma", json!(moves / n as f64));
    s
}

/// what happened against what was to be expected
#[derive(Default, Clone, Copy)]
struct Tally {
    seen: f64,
    expect: f64,
    var: f64,
    n: f64,
}
impl Tally {
    fn add(&mut self, hit: bool, p: f64) {
        self.seen += hit as u64 as f64;
        self.expect += p;
        self.var += p * (1.0 - p);
        self.n += 1.0;
    }
    fn bound(&self) -> f64 {
        const L: f64 = 32.0;
        let freedman = 2.0 * (self.var * L).sqrt() + L;
        let hoeffding = (self.n * L / 2.0).sqrt();
        freedman.min(hoeffding) + 1e-6
    }
    fn say(&self) -> String {
        format!("{} of {} times, where {:.1} are to be expected", self.seen, self.n, self.expect)
    }
}
struct W {
    inst: Inst,
    n: usize,
    d: Vec<f64>,
    scale: f64,
    cavg: usize,
    lmax: usize,
    found: Found,
    before: Option<Vec<Vec<usize>>>,
    after: Option<Vec<Vec<usize>>>,
    both: BTreeMap<&'static str, Tally>,
    /// the expectation is only a lower bound
    least: BTreeMap<&'static str, Tally>,
    near: Vec<Tally>,
    alone: Vec<Tally>,
    first: Vec<f64>,
    ruins: u64,
    recreates: u64,
    exact: u64,
    no_fit: u64,
    capped: u64,
    h: H,
}
type Routes = Vec<Vec<usize>>;
impl W {
    fn new(s: &Scn) -> W {
        let inst = s.inst().clone();
        let n = inst.n();
        let rounded = s.rounded();
        let mut d = vec![0.0; (n + 1) * (n + 1)];
        for a in 0..=n {
            for b in 0..=n {
                d[a * (n + 1) + b] = inst.dist(a, b, rounded);
            }
        }
        let scale = d.iter().cloned().fold(0.0, f64::max);
        // chance of being the customer next to a seed that is drawn from all of them; a seed with
        // several nearest others is left out
        let mut first = vec![0.0; n + 1];
        let mut clear = 0;
        for c in 1..=n {
            let mut v: Vec<(f64, usize)> = (1..=n).filter(|&x| x != c).map(|x| (d[c * (n + 1) + x], x)).collect();
            v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            if v.len() == 1 || (v.len() > 1 && v[1].0 - v[0].0 > 1e-9 * scale) {
                first[v[0].1] += 1.0 / n as f64;
                clear += 1;
            }
        }
        first[0] = (clear == n) as u64 as f64;
        W {
            n,
            d,
            scale,
            cavg: s.cu("average_ruin_cardinality", 10) as usize,
            lmax: s.cu("max_ruin_string_length", 10) as usize,
            found: Found(vec![]),
            before: None,
            after: None,
            both: BTreeMap::new(),
            least: BTreeMap::new(),
            near: vec![Tally::default(); n + 1],
            alone: vec![Tally::default(); n + 1],
            first,
            ruins: 0,
            recreates: 0,
            exact: 0,
            no_fit: 0,
            capped: 0,
            h: H::new(),
            inst,
        }
    }
    fn v(&mut self, k: &str, m: String) {
        self.found.v("C26", k, m);
    }
    #[inline]
    fn dist(&self, a: usize, b: usize) -> f64 {
        self.d[a * (self.n + 1) + b]
    }
    fn both(&mut self, k: &'static str, hit: bool, p: f64) {
        self.both.entry(k).or_default().add(hit, p);
    }
    fn least(&mut self, k: &'static str, hit: bool, p: f64) {
        self.least.entry(k).or_default().add(hit, p);
    }

    fn ruined(&mut self, old: &Routes, new: &Routes) {
        self.ruins += 1;
        if self.n < 2 {
            return;
        }
        let total: usize = old.iter().map(|r| r.len()).sum();
        let avg = (total as f64 / old.len() as f64).round();
        let lsmax = avg.min(self.lmax as f64);
        let ksmax = 4.0 * self.cavg as f64 / (1.0 + lsmax) - 1.0;
        let filled = old.iter().filter(|r| !r.is_empty()).count();
        let mut hit: Vec<usize> = vec![];
        let mut gone = vec![false; self.n + 1];
        // positions of what was removed, per ruined route
        let mut cuts: Vec<(usize, Vec<usize>)> = vec![];
        for (i, (a, b)) in old.iter().zip(new).enumerate() {
            if a == b {
                continue;
            }
            let left: HashSet<usize> = b.iter().copied().collect();
            let pos: Vec<usize> = (0..a.len()).filter(|&k| !left.contains(&a[k])).collect();
            let kept: Vec<usize> = a.iter().copied().filter(|c| left.contains(c)).collect();
            if &kept != b || pos.is_empty() {
                self.v("not-removed", format!("a ruin turned route {:?} into {:?}", a, b));
                return;
            }
            for &k in &pos {
                gone[a[k]] = true;
            }
            hit.push(i);
            cuts.push((i, pos));
        }
        if hit.is_empty() {
            self.v("nothing", format!("a ruin removed no customer from {:?}", old));
            return;
        }
        let most = if ksmax > 0.0 { ksmax.floor() as usize + 1 } else { 1 };
        let most = if ksmax > 0.0 && ksmax.fract() == 0.0 { most.max(2) - 1 } else { most };
        if hit.len() > most {
            self.v("routes", format!("a ruin took from {} routes, to be at most {} for {} customers on average and strings of at most {}: {:?} -> {:?}", hit.len(), most, self.cavg, lsmax, old, new));
            return;
        }
        // routes that the nearest customers a ruin looks at are on, wherever they are
        let mut lens: Vec<usize> = old.iter().map(|r| r.len()).collect();
        lens.sort_by(|a, b| b.cmp(a));
        let (mut seen, mut reach) = (0, 0);
        for l in lens.iter().filter(|l| **l > 0) {
            if seen >= self.n.min(200) {
                break;
            }
            seen += l;
            reach += 1;
        }
        let filled = if self.n > 201 { filled.min(reach) } else { filled };
        if filled >= 3 {
            let p = if ksmax > 1.0 { 1.0 / ksmax } else { 1.0 };
            self.both("ruins of one route", hit.len() == 1, p);
        }
        if filled >= 4 && ksmax > 1.0 {
            self.both("ruins of two routes", hit.len() == 2, (ksmax.min(2.0) - 1.0) / ksmax);
        }
        if filled >= 6 && ksmax > 3.0 {
            self.both("ruins of more than three routes", hit.len() > 3, (ksmax - 3.0) / ksmax);
        }
        let mut windows: Vec<(usize, usize, usize, bool)> = vec![];
        for (i, pos) in &cuts {
            let len = old[*i].len();
            let most = (lsmax.min(len as f64) as usize).max(1);
            if pos.len() > most {
                self.v("string", format!("a ruin removed {} customers from {:?}, to be at most {} (strings of at most {}, {} customers on {} routes)", pos.len(), old[*i], most, self.lmax, total, old.len()));
                return;
            }
            let runs = 1 + pos.windows(2).filter(|w| w[1] != w[0] + 1).count();
            if runs > 2 {
                self.v("runs", format!("a ruin turned {:?} into {:?}: {} strings", old[*i], new[*i], runs));
                return;
            }
            if most > 1 {
                self.both("strings of one customer", pos.len() == 1, 1.0 / most as f64);
                self.both("strings of full length", pos.len() == most, 1.0 / most as f64);
                if most > 3 {
                    self.both("strings of at most half the length", pos.len() <= most / 2, (most / 2) as f64 / most as f64);
                }
            }
            let lt = pos.len();
            if lt < len {
                if lt > 1 {
                    self.both("strings in two parts", runs == 2, 0.5 * (lt - 1) as f64 / lt as f64);
                }
                if runs == 2 {
                    let gap = pos[lt - 1] + 1 - pos[0] - lt;
                    self.both("kept parts as long as possible", gap + lt == len, 0.99f64.powi((len - lt) as i32 - 1));
                    if gap + lt == len {
                        self.both("kept parts after the first of a string", pos[1] != 1, 1.0 / (lt - 1) as f64);
                    }
                }
            }
            windows.push((*i, pos[0], pos[lt - 1], runs == 2));
        }
        // the seed
        let eps = 1e-9 * self.scale + 1e-9;
        let mut seeds = 0;
        'c: for c in 1..=self.n {
            let (mut inside, mut outside) = (0.0f64, f64::INFINITY);
            for (i, r) in old.iter().enumerate() {
                if r.is_empty() {
                    continue;
                }
                let dm = r.iter().filter(|&&x| x != c).map(|&x| self.dist(c, x)).fold(f64::INFINITY, f64::min);
                if let Some(&(_, a, b, two)) = windows.iter().find(|w| w.0 == i) {
                    if dm == f64::INFINITY {
                        continue 'c;
                    }
                    inside = inside.max(dm);
                    if two && !(a..=b).any(|k| r[k] != c && self.dist(c, r[k]) <= dm + eps) {
                        continue 'c;
                    }
                } else {
                    outside = outside.min(dm);
                }
            }
            if inside <= outside + eps {
                seeds += 1;
                break;
            }
        }
        if seeds == 0 {
            self.v("seed", format!("a ruin took from the routes {:?} of {:?} (-> {:?}), and they are not the routes next to any customer", hit, old, new));
            return;
        }
        for c in 1..=self.n {
            let p = 0.5 * self.first[c];
            if p > 0.0 {
                self.near[c].add(gone[c], p);
            }
        }
        if self.first[0] == 1.0 && hit.len() == 1 && old.iter().all(|r| r.len() < 2) && ksmax <= 1.0 {
            for c in 1..=self.n {
                let p = self.first[c];
                self.alone[c].add(gone[c], p);
            }
        }
    }

    /// where a customer may go: routes it may go to, and the least cost there
    fn options(&self, routes: &Routes, loads: &[f64], touched: &[bool], c: usize, pen: f64) -> Opt {
        let dem = self.inst.d[c];
        let mut o = Opt { best: f64::INFINITY, at: vec![], fits: false, vague: false };
        let band = 1e-12 * self.inst.cap;
        for pass in 0..2 {
            for (i, r) in routes.iter().enumerate() {
                let over = loads[i] - self.inst.cap + dem;
                let extra = if pass == 0 {
                    if !touched[i] {
                        continue;
                    }
                    o.vague |= over > 5e-7 - band && over < 2e-6 + band;
                    if over >= 1e-6 {
                        continue;
                    }
                    o.fits = true;
                    0.0
                } else {
                    over.max(0.0) * pen
                };
                for k in 0..=r.len() {
                    let a = if k == 0 { 0 } else { r[k - 1] };
                    let b = if k == r.len() { 0 } else { r[k] };
                    let x = self.dist(a, c) + self.dist(c, b) - self.dist(a, b) + extra;
                    o.at.push((x, i, k));
                    o.best = o.best.min(x);
                }
            }
            if o.fits {
                break;
            }
        }
        o
    }
    fn slack(&self, fits: bool, pen: f64) -> f64 {
        1.5e-6 + 1e-10 * self.scale + if fits { 0.0 } else { pen * (self.inst.cap + self.inst.d.iter().sum::<f64>()) * 1e-13 }
    }

    fn recreated(&mut self, old: &Routes, ruined: &Routes, new: &Routes, pen: f64) {
        self.recreates += 1;
        let n = self.n;
        let mut have = vec![false; n + 1];
        for r in ruined {
            for &c in r {
                have[c] = true;
            }
        }
        let put: Vec<usize> = (1..=n).filter(|&c| !have[c]).collect();
        let m = put.len();
        if m == 0 {
            return;
        }
        if let Some(e) = self.inst.partition_err(new) {
            self.v("lost", format!("a recreate turned {:?} into {:?}: {}", ruined, new, e));
            return;
        }
        for (a, b) in ruined.iter().zip(new) {
            let kept: Vec<usize> = b.iter().copied().filter(|&c| have[c]).collect();
            if &kept != a {
                self.v("moved", format!("a recreate turned {:?} into {:?}: customers that were not removed changed their place", a, b));
                return;
            }
        }
        let touched: Vec<bool> = old.iter().zip(ruined).map(|(a, b)| a != b).collect();
        // some order of insertion explains the result
        if m <= 20 {
            let mut idx = vec![usize::MAX; n + 1];
            for (k, &c) in put.iter().enumerate() {
                idx[c] = k;
            }
            let mut stack = vec![0u32];
            let mut seen: HashSet<u32> = stack.iter().copied().collect();
            let full = (1u32 << m) - 1;
            let mut done = false;
            let mut best_left = put.clone();
            let mut cap = 4000;
            while let Some(st) = stack.pop() {
                if st == full {
                    done = true;
                    break;
                }
                cap -= 1;
                if cap == 0 {
                    self.capped += 1;
                    done = true;
                    break;
                }
                let part: Routes = new.iter().map(|r| r.iter().copied().filter(|&c| idx[c] == usize::MAX || st >> idx[c] & 1 == 1).collect()).collect();
                let loads: Vec<f64> = part.iter().map(|r| self.inst.load(r)).collect();
                let mut t = touched.clone();
                for (i, r) in part.iter().enumerate() {
                    t[i] |= r.iter().any(|&c| idx[c] != usize::MAX);
                }
                let left = m - st.count_ones() as usize;
                if left < best_left.len() {
                    best_left = put.iter().enumerate().filter(|(k, _)| st >> k & 1 == 0).map(|x| *x.1).collect();
                }
                for (k, &c) in put.iter().enumerate() {
                    let st2 = st | 1 << k;
                    if st >> k & 1 == 1 || seen.contains(&st2) {
                        continue;
                    }
                    let o = self.options(&part, &loads, &t, c, pen);
                    let (i, mut at) = (0..new.len()).find_map(|i| new[i].iter().position(|&x| x == c).map(|p| (i, p))).unwrap();
                    at = new[i][..at].iter().filter(|&&x| idx[x] == usize::MAX || st >> idx[x] & 1 == 1).count();
                    let ok = match o.at.iter().find(|x| x.1 == i && x.2 == at) {
                        Some(x) => x.0 <= o.best + self.slack(o.fits, pen),
                        None => false,
                    };
                    if ok || o.vague {
                        seen.insert(st2);
                        stack.push(st2);
                    }
                    if !o.fits {
                        self.no_fit += 1;
                    }
                }
            }
            if !done {
                self.v("place", format!("a recreate turned {:?} into {:?} (penalty {}): put back in no order is every customer where it costs least ({:?} remain unexplained), ruined from {:?}", ruined, new, pen, best_left, old));
                return;
            }
        }
        // which order it was
        if m < 2 || m > 8 {
            return;
        }
        let key = |f: &dyn Fn(usize) -> f64| -> Option<Vec<usize>> {
            let mut v = put.clone();
            v.sort_by(|&a, &b| f(a).partial_cmp(&f(b)).unwrap());
            if v.windows(2).any(|w| (f(w[1]) - f(w[0])).abs() < 1e-7) {
                None
            } else {
                Some(v)
            }
        };
        let (Some(o1), Some(o2)) = (key(&|c| -self.inst.d[c]), key(&|c| -self.dist(c, 0))) else { return };
        let o3: Vec<usize> = o2.iter().rev().copied().collect();
        let sorted: Vec<Option<Routes>> = [&o1, &o2, &o3].iter().map(|o| self.greedy(ruined, &touched, o, pen)).collect();
        let Some(sorted) = sorted.into_iter().collect::<Option<Vec<Routes>>>() else { return };
        let got = canon(new);
        const NAME: [&str; 3] = ["recreates in the order of demand", "recreates farthest first", "recreates nearest first"];
        const P: [f64; 3] = [4.0, 2.0, 1.0];
        if m <= 4 {
            let mut share: BTreeMap<Routes, f64> = BTreeMap::new();
            for (o, p) in sorted.iter().zip(P) {
                *share.entry(o.clone()).or_default() += p / 11.0;
            }
            let mut perms = vec![];
            permute(&mut put.clone(), 0, &mut perms);
            let each = 4.0 / 11.0 / perms.len() as f64;
            for p in &perms {
                let Some(o) = self.greedy(ruined, &touched, p, pen) else { return };
                *share.entry(o).or_default() += each;
            }
            self.exact += 1;
            if share.len() < 2 {
                return;
            }
            for k in 0..3 {
                self.both(NAME[k], got == sorted[k], share[&sorted[k]].min(1.0));
            }
            let none = 1.0 - sorted.iter().collect::<std::collections::BTreeSet<_>>().iter().map(|o| share[*o]).sum::<f64>();
            self.both("recreates in another order", !sorted.contains(&got), none.clamp(0.0, 1.0));
        } else {
            for k in 0..3 {
                if sorted.iter().enumerate().all(|(j, o)| j == k || *o != sorted[k]) {
                    self.least(NAME[k], got == sorted[k], P[k] / 11.0);
                }
            }
        }
    }
    /// the result of putting customers back in an order; none if it depends on how ties are broken
    fn greedy(&self, ruined: &Routes, touched: &[bool], order: &[usize], pen: f64) -> Option<Routes> {
        let mut r = ruined.clone();
        let mut t = touched.to_vec();
        let mut loads: Vec<f64> = r.iter().map(|r| self.inst.load(r)).collect();
        for &c in order {
            let o = self.options(&r, &loads, &t, c, pen);
            if o.vague {
                return None;
            }
            let near = 1e-5 + 4.0 * self.slack(o.fits, pen);
            let all: Vec<&(f64, usize, usize)> = o.at.iter().filter(|x| x.0 <= o.best + near).collect();
            let (_, i, k) = *all[0];
            for x in &all[1..] {
                // the two ends of a route with one customer and one empty route or another come to the same
                let same = (x.1 == i && r[i].len() == 1 && x.2 != k) || (x.1 != i && r[i].is_empty() && r[x.1].is_empty() && t[i] == t[x.1]);
                if !same {
                    return None;
                }
            }
            r[i].insert(k, c);
            loads[i] += self.inst.d[c];
            t[i] = true;
        }
        Some(canon(&r))
    }
    fn close(&mut self) {
        let bad: Vec<String> = self
            .both
            .iter()
            .filter(|(_, t)| (t.seen - t.expect).abs() > t.bound())
            .map(|(k, t)| format!("{}: {}", k, t.say()))
            .chain(self.least.iter().filter(|(_, t)| t.expect - t.seen > t.bound()).map(|(k, t)| format!("{}: {} at least", k, t.say())))
            .chain(self.near.iter().enumerate().filter(|(_, t)| t.expect - t.seen > t.bound()).map(|(c, t)| format!("removals of customer {}: {} at least", c, t.say())))
            .chain(self.alone.iter().enumerate().filter(|(_, t)| (t.seen - t.expect).abs() > t.bound()).map(|(c, t)| format!("removals of customer {}, next to the seed: {}", c, t.say())))
            .collect();
        if let Some(b) = bad.first() {
            let k = if b.starts_with("recreates") { "order-share" } else if b.starts_with("removals") { "seed-share" } else { "string-share" };
            self.v(k, b.clone());
        }
    }
}
struct Opt {
    best: f64,
    at: Vec<(f64, usize, usize)>,
    fits: bool,
    vague: bool,
}
fn permute(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
    if k == v.len() {
        out.push(v.clone());
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, out);
        v.swap(k, i);
    }
}
/// routes regardless of their number and direction
fn canon(r: &Routes) -> Routes {
    let mut v: Routes = r
        .iter()
        .filter(|r| !r.is_empty())
        .map(|r| {
            let mut b = r.clone();
            b.reverse();
            if b < *r {
                b
            } else {
                r.clone()
            }
        })
        .collect();
    v.sort();
    v
}
fn nodes(x: &RuinRecreateSolution) -> Routes {
    x.routes.iter().map(|r| r.nodes.clone()).collect()
}
struct WRuin(Box<dyn Ruin>, Rc<RefCell<W>>);
struct WRecreate(Box<dyn Recreate>, Rc<RefCell<W>>);
impl Ruin for WRuin {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        let go = outside(|| {
            let mut w = self.1.borrow_mut();
            w.before = Some(nodes(x));
            w.found.0.is_empty()
        });
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            let new = nodes(x);
            if go {
                let old = w.before.clone().unwrap();
                w.ruined(&old, &new);
            }
            w.after = Some(new);
        });
    }
}
impl Recreate for WRecreate {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            let (Some(old), Some(ruined)) = (w.before.take(), w.after.take()) else { return };
            if w.found.0.is_empty() {
                let new = nodes(x);
                let pen = ctx.config.borrow().penalty_capacity;
                for r in &new {
                    w.h.add(r.first().copied().unwrap_or(0) as u64);
                    w.h.add(r.len() as u64);
                }
                w.recreated(&old, &ruined, &new, pen);
            }
        });
    }
}
fn wrap(rr: &mut RuinRecreate, w: &Rc<RefCell<W>>) {
    struct Nothing;
    impl Ruin for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    impl Recreate for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    let a = std::mem::replace(&mut rr.ruin, Box::new(Nothing));
    rr.ruin = Box::new(WRuin(a, w.clone()));
    let b = std::mem::replace(&mut rr.recreate, Box::new(Nothing));
    rr.recreate = Box::new(WRecreate(b, w.clone()));
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst();
    let w = Rc::new(RefCell::new(W::new(s)));
    let ops = s.par.get("ops").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        if s.kind == "ga" {
            let mut ga = GeneticAlgorithm::new(&ctx);
            outside(|| wrap(&mut ga.rr, &w));
            for _ in 0..s.steps {
                ga.iterate(&ctx);
                if ga.terminated() || !w.borrow().found.0.is_empty() {
                    break;
                }
            }
            return;
        }
        let mut rr = RuinRecreate::new(&ctx);
        outside(|| wrap(&mut rr, &w));
        let mut split = Split::new(&ctx);
        let mut last: Option<Individual> = None;
        for op in ops.iter() {
            ls::set_pen(&ctx, op);
            let mut ind = ls::start(&ctx, inst, op, &mut split, &last);
            ind.evaluate(&ctx);
            if op["elite"].as_bool().unwrap_or(false) {
                rr.setup_elite_education(&ctx);
            } else {
                rr.setup_mutation(&ctx);
            }
            rr.load(&ctx, &mut ind);
            while !rr.complete() && w.borrow().found.0.is_empty() {
                rr.search();
            }
            let mut out = Individual::new_random(&ctx, 1);
            rr.get_best_solution(&mut out);
            last = Some(out);
        }
    });
    account(&mut o, &s.env, &st);
    let mut w = w.borrow_mut();
    w.close();
    o.inc("ruins_explained", w.ruins);
    o.inc("recreates_explained", w.recreates);
    o.inc("recreates_with_every_order_tried", w.exact);
    o.inc("insertions_where_nothing_fits", w.no_fit);
    o.inc("recreates_too_large_to_explain", w.capped);
    o.inc("shares_judged", w.both.values().chain(w.least.values()).map(|t| t.n as u64).sum());
    o.viol = w.found.take("C26");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "ruin-and-recreate");
        }
    }
    let mut tr = H::new();
    tr.add(st.draws);
    tr.add(w.h.0);
    o.trace = tr.0 | 1;
    o.nontrivial = w.ruins >= 50 && w.recreates >= 50;
    o
}
