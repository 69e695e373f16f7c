//! C24: whole genetic searches whose local search, ruins and recreates are watched through the solver's own
//! interfaces, and what was done counted against what the settings ask for.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::props::*;
use crate::rng::H;
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::improvement::{LinkNode, LocalSearch, Move, Recreate, Ruin, RuinRecreateSolution};
use hybridcvrp::solver::{Context, Metaheuristic};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        gen,
        run,
        quick: 22000,
        thorough: 250000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x configuration (switches, probabilities, factors, temperatures, size limits) x a whole genetic search with restarts and elite education; which parts of the search worked on which individual, how many ruin-and-recreate moves each made, what every ruin removed and which results the search went on from are recorded and compared with the settings, shares and acceptance within bounds no correct run leaves with probability above e^-25; non-trivial: at least ten individuals were educated",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
const NAMES: [(&str, &str, bool); 9] = [
    ("RelocateSingle", "relocate_single", true),
    ("RelocateDouble", "relocate_double", true),
    ("RelocateDoubleReverse", "relocate_double_reverse", false),
    ("SwapOneWithOne", "swap_one_with_one", true),
    ("SwapTwoWithOne", "swap_two_with_one", true),
    ("SwapTwoWithTwo", "swap_two_with_two", true),
    ("TwoOptIntraReverse", "two_opt_intra_reverse", true),
    ("TwoOptInterReverse", "two_opt_inter_reverse", true),
    ("TwoOptInter", "two_opt_inter", true),
];
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 50 == 17 {
        let (mut r, mut s) = base("C24", seed, Kind::Any, 30);
        s.kind = "fresh".into();
        while s.inst().n() < 10 {
            let rounded = s.rounded();
            s.inst = Some(crate::inst::gen(&mut r, 12, Kind::Any, rounded));
        }
        s.c("seed", json!(r.range(0, 1 << 40)));
        s.steps = r.range(5, 30);
        s.env.heap = 0;
        return s;
    }
    let kind = [Kind::Tight, Kind::Any, Kind::Feasible, Kind::Tight, Kind::Edge][(i % 5) as usize];
    let (mut r, mut s) = base("C24", seed, kind, 24);
    s.kind = "settings".into();
    let n = s.inst().n() as u64;
    s.c("rr_mutation", json!(r.p(0.8)));
    s.c("rr_probability", json!(*r.pick(&[1.0, 1.0, 0.0, 0.5, 0.2, 0.8])));
    s.c("rr_gamma", json!(*r.pick(&[1.0, 1.0, 0.3, 0.0, 2.0, 2.7, 6.0])));
    s.c("rr_start_temp", json!(*r.pick(&[10.0, 1.0, 100.0, 1000.0, 30.0])));
    s.c("repair_probability", json!(*r.pick(&[0.0, 1.0, 0.5, 0.2, 0.8])));
    s.c("ls_enabled", json!(r.p(0.88)));
    s.c("elite_education", json!(r.p(0.5)));
    s.c("elite_education_problem_size_limit", json!(*r.pick(&[0, 1, n.saturating_sub(1), n, n + 1, 2 * n])));
    s.c("elite_education_gamma", json!(*r.pick(&[1.0, 0.3, 7.3, 40.0, 120.0, 0.0])));
    s.c("elite_education_start_temp", json!(*r.pick(&[50.0, 5.0, 500.0])));
    s.c("average_ruin_cardinality", json!(*r.pick(&[1u64, 2, 3, 5, 10, 15])));
    s.c("max_ruin_string_length", json!(*r.pick(&[1u64, 2, 3, 6, 10])));
    let timed = r.p(0.12);
    if timed {
        s.c("elite_education_time_based", json!(true));
        s.c("time_limit", json!(r.range(1, 30)));
    }
    s.steps = if r.p(0.3) { r.range(150, 400) } else { r.range(20, 120) };
    if timed && r.p(0.7) {
        // an education of some hundred to some thousand moves
        s.c("elite_education", json!(true));
        s.c("elite_education_problem_size_limit", json!(0));
        let share = *r.pick(&[0.1, 0.3, 0.5, 0.9]);
        s.c("elite_education_time_fraction", json!(share));
        let moves = r.range(300, 2500);
        s.env.per_draw = (s.cu("time_limit", 1) as f64 * 1e9 * share) as u64 / (moves * (10 + 2 * n));
        s.env.per_read = 0;
        s.env.events.retain(|_| r.p(0.3));
    }
    s
}

/// sum of what happened against what was to be expected, and the variance of that
#[derive(Default, Clone, Copy)]
struct Tally {
    seen: f64,
    expect: f64,
    var: f64,
    n: f64,
}
impl Tally {
    fn add(&mut self, hit: bool, p: f64) {
        self.seen += hit as u64 as f64;
        self.expect += p;
        self.var += p * (1.0 - p);
        self.n += 1.0;
    }
    /// further off than any correct run gets
    fn off(&self) -> bool {
        const L: f64 = 30.0;
        let freedman = 2.0 * (self.var * L).sqrt() + L;
        let hoeffding = (self.n * L / 2.0).sqrt();
        (self.seen - self.expect).abs() > freedman.min(hoeffding) + 1e-6
    }
    fn say(&self) -> String {
        format!("{} of {} times, where {:.1} are to be expected", self.seen, self.n, self.expect)
    }
}
struct W {
    inst: Inst,
    rounded: bool,
    found: Found,
    /// moves weighed in this step at the penalty and at ten times the penalty
    asked: [u64; 2],
    ruins: u64,
    /// while the moves of this step belong to elite education
    elite: bool,
    /// number of the move within its mutation or education, which has so many
    index: u64,
    total: u64,
    temp: f64,
    timed: bool,
    /// of an education by time: when it started and how many nanoseconds it has, where the clock stood after the
    /// last move, and the bounds of the temperature now
    start: u64,
    has: f64,
    at: u64,
    band: (f64, f64),
    before: Option<(Vec<Vec<usize>>, f64, f64)>,
    pending: Option<(Vec<Vec<usize>>, f64, Vec<Vec<usize>>, f64, f64, f64)>,
    accept: [Tally; 6],
    off: Vec<&'static str>,
    star: bool,
    last_u: usize,
    links: Option<(usize, u64)>,
    cavg: usize,
    lmax: usize,
    removed: u64,
}
impl W {
    fn v(&mut self, k: &str, m: String) {
        self.found.v("C24", k, m);
    }
    /// the move whose outcome is waiting: did the search go on from it?
    fn settle(&mut self, now: &[Vec<usize>], pen: f64) {
        let Some((r0, c0, r1, c1, temp, p)) = self.pending.take() else { return };
        if p != pen || r0 == r1 {
            return;
        }
        let took = now == r1.as_slice();
        if !took && now != r0.as_slice() {
            let m = format!("after a move from {:?} to {:?} the next one starts from {:?}", r0, r1, now);
            self.v("goes-on", m);
            return;
        }
        let d = c1 - c0;
        let slack = 1e-5 + 4.0 * self.inst.tol_pen(c0.max(c1), pen);
        if d < -slack {
            if !took {
                let m = format!("a result of penalised cost {} after one of {} was turned down (penalty {}): {:?} -> {:?}", c1, c0, pen, r0, r1);
                self.v("turned-down", m);
            }
        } else if d > slack {
            if took && d > 45.0 * temp + slack {
                let m = format!("a result of penalised cost {} after one of {} was taken at temperature {} (move {} of {})", c1, c0, temp, self.index, self.total);
                self.v("too-hot", m);
            } else if temp > 1e3 * slack && (!self.timed || self.band.1 - self.band.0 < 1e-2 * temp) {
                let late = if self.timed { (self.at - self.start) as f64 * 2.0 > self.has } else { self.index * 2 > self.total };
                self.accept[self.elite as usize * 2 + self.timed as usize * 2 + late as usize].add(took, (-d / temp).exp());
            }
        }
    }
    /// the temperature follows the clock every hundred moves; it was read some time after the last result
    fn warm(&mut self, now: u64) {
        if self.index == 0 {
            self.band = (self.temp, self.temp);
        } else if self.index % 100 == 0 {
            let f = |t: u64| curve(t.saturating_sub(self.start) as f64 / self.has) * self.temp;
            self.band = (f(now), f(self.at));
        }
    }
    fn cooled(&self) -> f64 {
        if self.timed {
            return self.band.1;
        }
        if self.index == 0 {
            return self.temp;
        }
        // exponential decay to zero, as documented by its unit test
        let t = self.index as f64 / self.total as f64;
        curve(t) * self.temp
    }
}
fn curve(t: f64) -> f64 {
    ((-2.0 * t).exp() - t * (-2.0f64).exp()).max(0.0)
}
struct Watched(Box<dyn Move>, Rc<RefCell<W>>);
unsafe fn links(ls: &LocalSearch, cap: usize) -> u64 {
    let mut h = H::new();
    for r in ls.routes.iter() {
        let mut p = (*r.start_depot).successor;
        let mut k = 0;
        while !p.is_null() && (*p).number != 0 && k <= cap {
            h.add((*p).number as u64);
            p = (*p).successor;
            k += 1;
        }
        h.add(0);
    }
    h.0
}
impl Move for Watched {
    fn move_name(&self) -> &'static str {
        self.0.move_name()
    }
    unsafe fn delta(&self, ls: &LocalSearch, u: *mut LinkNode, v: *mut LinkNode) -> f64 {
        outside(|| {
            let mut w = self.1.borrow_mut();
            let pen = ls.ctx.config.borrow().penalty_capacity;
            let f = ls.penalty_capacity / pen;
            let c = if (f - 1.0).abs() < 1e-6 {
                0
            } else if (f - 10.0).abs() < 1e-5 {
                1
            } else {
                let m = format!("local search works with penalty {}, the search with {}", ls.penalty_capacity, pen);
                w.v("penalty", m);
                0
            };
            w.asked[c] += 1;
            if w.asked[c] == 1 {
                w.links = None;
                w.last_u = 0;
            }
            if w.off.contains(&self.0.move_name()) {
                let m = format!("{} is weighed, though it is turned off", self.0.move_name());
                w.v("turned-off", m);
            }
            if !w.star && w.last_u != (*u).number {
                // without SWAP*, nothing but these moves changes the routes
                w.last_u = (*u).number;
                let h = links(ls, w.inst.n());
                if let Some((k, old)) = w.links {
                    if k == c && old != h {
                        w.v("swap-star", "the routes change between two moves of local search, though SWAP* is turned off".into());
                    }
                }
                w.links = Some((c, h));
            }
        });
        self.0.delta(ls, u, v)
    }
    unsafe fn perform(&self, ls: &mut LocalSearch, u: *mut LinkNode, v: *mut LinkNode) {
        self.0.perform(ls, u, v);
        outside(|| {
            let mut w = self.1.borrow_mut();
            w.links = None;
            w.last_u = 0;
        });
    }
}
struct WRuin(Box<dyn Ruin>, Rc<RefCell<W>>);
struct WRecreate(Box<dyn Recreate>, Rc<RefCell<W>>);
fn nodes(x: &RuinRecreateSolution) -> Vec<Vec<usize>> {
    x.routes.iter().map(|r| r.nodes.clone()).collect()
}
impl Ruin for WRuin {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        outside(|| {
            let mut w = self.1.borrow_mut();
            let pen = ctx.config.borrow().penalty_capacity;
            let r = nodes(x);
            w.settle(&r, pen);
            if w.timed {
                w.warm(simhook::now_ns());
            }
            let c = w.inst.pen_cost(&r, w.rounded, pen);
            w.before = Some((r, c, pen));
        });
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            w.ruins += 1;
            let Some((r, _, _)) = w.before.clone() else { return };
            let mut all = 0;
            for (i, old) in r.iter().enumerate() {
                let gone = old.len() - x.routes[i].nodes.len().min(old.len());
                all += gone;
                if gone > w.lmax {
                    let m = format!("a ruin removed {} customers from route {:?}, strings have at most {}", gone, old, w.lmax);
                    w.v("string", m);
                }
            }
            w.removed += all as u64;
            if all == 0 && w.inst.n() > 1 {
                w.v("nothing", format!("a ruin removed no customer from {:?}", r));
            }
            if all > (4 * w.cavg).max(w.lmax) {
                let m = format!("a ruin removed {} customers, where {} are the average", all, w.cavg);
                w.v("cardinality", m);
            }
        });
    }
}
impl Recreate for WRecreate {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            let Some((r0, c0, pen)) = w.before.take() else { return };
            let r1 = nodes(x);
            let c1 = w.inst.pen_cost(&r1, w.rounded, pen);
            let t = w.cooled();
            w.pending = Some((r0, c0, r1, c1, t, pen));
            w.index += 1;
            w.at = simhook::now_ns();
        });
    }
}
fn wrap(ga: &mut GeneticAlgorithm, w: &Rc<RefCell<W>>) {
    struct Nothing;
    impl Ruin for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    impl Recreate for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    for v in [&mut ga.ls.moves.neighbor, &mut ga.ls.moves.depot, &mut ga.ls.moves.empty_route] {
        let old = std::mem::take(v);
        *v = old.into_iter().map(|m| Box::new(Watched(m, w.clone())) as Box<dyn Move>).collect();
    }
    let a = std::mem::replace(&mut ga.rr.ruin, Box::new(Nothing));
    ga.rr.ruin = Box::new(WRuin(a, w.clone()));
    let b = std::mem::replace(&mut ga.rr.recreate, Box::new(Nothing));
    ga.rr.recreate = Box::new(WRecreate(b, w.clone()));
}
/// The first random individuals of runs that differ in entropy only, and in the seed only.
fn fresh(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let mut tr = H::new();
    let mut lists: Vec<Vec<Vec<usize>>> = vec![];
    let seed = s.cu("seed", 1);
    for (det, sd, other) in [(true, seed, false), (true, seed, true), (true, seed + 1, false), (false, seed, false), (false, seed, true)] {
        let mut t = s.clone();
        t.c("deterministic", json!(det));
        t.c("seed", json!(sd));
        if other {
            t.env.seed = s.env.seed ^ 0x5DEECE66D;
            t.env.per_draw = s.env.per_draw / 2 + 17;
        }
        let (res, st) = under(&t.env, t.budget, &[(0, path.to_string_lossy().into())], || {
            let ctx = context(&t);
            let mut v: Vec<Vec<usize>> = vec![];
            for i in 0..t.steps {
                v.push(hybridcvrp::solver::genetic::Individual::new_random(&ctx, i).genotype);
            }
            // a restart begins the same stream again, or a new one
            ctx.random.reset();
            for i in 0..t.steps {
                v.push(hybridcvrp::solver::genetic::Individual::new_random(&ctx, i).genotype);
            }
            v
        });
        account(&mut o, &t.env, &st);
        match res {
            Ok(v) => {
                tr.add(st.draws);
                if det {
                    for x in v.iter().flatten() {
                        tr.add(*x as u64);
                    }
                }
                lists.push(v);
            }
            Err(e) => {
                crash(s, &mut o, &e, "random individuals");
                return o;
            }
        }
    }
    o.trace = tr.0 | 1;
    o.nontrivial = true;
    if lists[0] != lists[1] {
        o.v("fresh", "two deterministic runs with the same seed begin with different random individuals".into());
    } else if lists[0] == lists[2] {
        o.v("fresh", format!("seeds {} and {} give the same random individuals", seed, seed + 1));
    } else if lists[3] == lists[4] {
        o.v("fresh", "two runs that are not deterministic begin with the same random individuals".into());
    } else if lists[3] == lists[0] {
        o.v("fresh", "a run that is not deterministic begins with the random individuals of its seed".into());
    }
    o
}
fn run(s: &Scn) -> Out {
    if s.kind == "fresh" {
        return fresh(s);
    }
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst().clone();
    let n = inst.n();
    let rounded = s.rounded();
    let ls_on = s.cb("ls_enabled", true);
    let timed = s.cb("elite_education_time_based", false);
    let off: Vec<&'static str> = NAMES.iter().filter(|(_, k, d)| !s.cb(k, *d)).map(|x| x.0).collect();
    // any pair of customers is put before the moves between neighbours
    let visible = ls_on && n >= 2 && off.len() < NAMES.len();
    let mutate = s.cb("rr_mutation", true);
    let prob = if mutate { s.cf("rr_probability", 1.0) } else { 0.0 };
    let k = (s.cf("rr_gamma", 1.0) * n as f64).round() as u64;
    let elite = s.cb("elite_education", false) && n as u64 > s.cu("elite_education_problem_size_limit", 1);
    let ke = (s.cf("elite_education_gamma", 1000.0) * n as f64).round() as u64;
    let repair = s.cf("repair_probability", 0.5);
    let w = Rc::new(RefCell::new(W {
        inst: inst.clone(),
        rounded,
        found: Found(vec![]),
        asked: [0; 2],
        ruins: 0,
        elite: false,
        index: 0,
        total: 0,
        temp: 0.0,
        timed: false,
        start: 0,
        has: 0.0,
        at: 0,
        band: (0.0, 0.0),
        before: None,
        pending: None,
        accept: [Tally::default(); 6],
        off,
        star: s.cb("swap_star", true),
        last_u: 0,
        links: None,
        cavg: s.cu("average_ruin_cardinality", 10) as usize,
        lmax: s.cu("max_ruin_string_length", 10) as usize,
        removed: 0,
    }));
    let (mut educated, mut mutated, mut repaired) = (0u64, Tally::default(), [Tally::default(); 2]);
    let (mut educations, mut moves, mut epochs) = (0u64, 0u64, 1u64);
    let mut tr = H::new();
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut ga = GeneticAlgorithm::new(&ctx);
        outside(|| wrap(&mut ga, &w));
        // ruin-and-recreate moves and moves weighed since the search started or restarted, before its first individual
        let (mut pre, mut pre_asked, mut first) = (0u64, 0u64, true);
        let (mut steps_before, mut done, mut ended, mut at) = (0u64, false, false, 0u64);
        for step in 0..s.steps {
            let it0 = *ctx.iteration.borrow();
            let ni0 = ga.num_initialized;
            outside(|| {
                let mut w = w.borrow_mut();
                w.asked = [0; 2];
                w.ruins = 0;
                // the first step of an epoch with education educates the child like any other
                done |= w.elite && if timed { ended } else { w.index >= ke };
                let continues = first && steps_before > 0 && elite && !done && (timed || ke > 0);
                if !continues {
                    w.index = 0;
                    w.pending = None;
                    w.elite = false;
                    w.total = k;
                    w.temp = s.cf("rr_start_temp", 10.0);
                    w.timed = false;
                } else if !w.elite {
                    w.index = 0;
                    w.pending = None;
                    w.elite = true;
                    w.total = ke;
                    w.temp = s.cf("elite_education_start_temp", 50.0);
                    w.timed = timed;
                    w.start = at;
                    w.has = s.cf("elite_education_time_fraction", 0.02) * s.cu("time_limit", 0) as f64 * 1e9;
                }
            });
            ga.iterate(&ctx);
            if ga.terminated() {
                break;
            }
            let stop = outside(|| {
                let mut w = w.borrow_mut();
                // an education by time ends with a step without moves
                ended = w.ruins == 0;
                at = simhook::now_ns();
                let cycle = *ctx.iteration.borrow() > it0;
                let init = !cycle && ga.num_initialized > ni0;
                let (ruins, asked) = (w.ruins, w.asked);
                moves += ruins;
                tr.add(ruins);
                tr.add(asked[0] ^ asked[1].rotate_left(32));
                if !ls_on && asked[0] + asked[1] > 0 {
                    w.v("ls-off", format!("step {}: local search runs, though it is turned off", step));
                }
                if repair == 0.0 && asked[1] > 0 {
                    w.v("repair-off", format!("step {}: local search runs at ten times the penalty, though nothing is to be repaired", step));
                }
                if cycle || init {
                    if first {
                        // everything before the first individual of an epoch was elite education
                        first = false;
                        if !elite {
                            if pre + pre_asked > 0 {
                                w.v("education-off", format!("step {}: {} ruin-and-recreate moves and {} moves of local search before the first individual, though there is no elite education for {} customers", step, pre, pre_asked, n));
                            }
                        } else if !timed {
                            educations += 1;
                            let (a, b) = (ke, ke + k);
                            let ok = if prob <= 0.0 { pre == a } else if prob >= 1.0 { pre == b } else { pre == a || pre == b };
                            if !ok {
                                w.v("education", format!("step {}: elite education made {} moves, to be {} for {} customers (and {} for the mutation of its start solution)", step, pre, ke, n, k));
                            }
                            if visible && pre_asked == 0 {
                                w.v("education-ls", format!("step {}: elite education started without local search", step));
                            }
                        }
                    }
                    educated += 1;
                    if visible && asked[0] == 0 {
                        w.v("not-educated", format!("step {}: a new individual saw no local search", step));
                    }
                    if ruins != 0 && ruins != k {
                        w.v("moves", format!("step {}: an individual saw {} ruin-and-recreate moves, to be {} for {} customers", step, ruins, k, n));
                    }
                    if k > 0 {
                        mutated.add(ruins > 0, prob);
                        if (prob <= 0.0 && ruins > 0) || (prob >= 1.0 && ruins == 0) {
                            w.v("mutation", format!("step {}: an individual saw {} ruin-and-recreate moves, their probability is {}", step, ruins, prob));
                        }
                    }
                }
                if cycle {
                    if ni0 != ga_initial(s) {
                        w.v("initial", format!("step {}: the first generation follows {} initial individuals instead of {}", step, ni0, ga_initial(s)));
                    }
                    let over = inst.overload(&ga.child.phenotype);
                    if over < 1e-7 && asked[1] > 0 {
                        w.v("repair-feasible", format!("step {}: the feasible {:?} was repaired", step, ga.child.phenotype));
                    }
                    if over > 1e-5 && visible {
                        repaired[(ruins > 0) as usize].add(asked[1] > 0, repair);
                        if repair >= 1.0 && asked[1] == 0 {
                            w.v("repair", format!("step {}: {:?} has overload {} and was not repaired", step, ga.child.phenotype, over));
                        }
                    }
                }
                if first {
                    pre += ruins;
                    pre_asked += asked[0] + asked[1];
                    steps_before += 1;
                }
                if cycle && ga.num_initialized == 0 {
                    epochs += 1;
                    (pre, pre_asked, first, steps_before, done) = (0, 0, true, 0, false);
                    w.elite = false;
                }
                !w.found.0.is_empty()
            });
            if stop {
                break;
            }
        }
    });
    account(&mut o, &s.env, &st);
    let mut w = w.borrow_mut();
    if mutated.off() {
        w.v("mutation-share", format!("individuals saw ruin-and-recreate {} (probability {})", mutated.say(), prob));
    }
    for (i, t) in repaired.iter().enumerate() {
        if t.off() {
            w.v("repair-share", format!("infeasible individuals that {} ruin-and-recreate were repaired {} (probability {})", ["saw no", "saw"][i], t.say(), repair));
        }
    }
    for (i, t) in w.accept.iter().copied().collect::<Vec<_>>().iter().enumerate() {
        if t.off() {
            let what = ["the first half of mutations", "the second half of mutations", "the first half of elite education", "the second half of elite education", "the first half of elite education by time", "the second half of elite education by time"][i];
            w.v("acceptance", format!("in {} worse results were taken {}", what, t.say()));
        }
    }
    o.inc("individuals_educated", educated);
    o.inc("elite_educations", educations);
    o.inc("epochs", epochs);
    o.inc("ruin_and_recreate_moves", moves);
    o.inc("customers_removed", w.removed);
    o.inc("individuals_to_repair", (repaired[0].n + repaired[1].n) as u64);
    o.inc("worse_results_judged", w.accept.iter().map(|t| t.n as u64).sum());
    o.inc("worse_results_judged_by_time", w.accept[4..].iter().map(|t| t.n as u64).sum());
    o.viol = w.found.take("C24");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "search");
        }
    }
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = educated >= 10;
    o
}
fn ga_initial(s: &Scn) -> u64 {
    s.cu("initial_individuals", 100)
}
