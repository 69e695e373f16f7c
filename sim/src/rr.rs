//! C13: what the improvement procedures keep up to date is checked against the routes at every move.
use crate::ga::{base, crash, Found};
use crate::inst::{Inst, Kind};
use crate::ls;
use crate::props::*;
use crate::rng::H;
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, Split};
use hybridcvrp::solver::improvement::{LinkNode, LocalSearch, Move, Recreate, Ruin, RuinRecreate, RuinRecreateSolution};
use hybridcvrp::solver::{Context, Metaheuristic};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        gen,
        run,
        quick: 60000,
        thorough: 700000,
        crash_counts: true,
        level: "exploration",
        rule: "a scenario = instance x configuration x a history of calls on one local-search or one ruin-and-recreate object (fresh splits, random, single-route and perturbed solutions, penalties, multipliers, mutation and elite settings changed in between), or a whole genetic search; every move, ruin and recreate is watched through the solver's own interfaces and the linked routes, loads, distances, costs, locations and empty-route sets are recomputed; non-trivial: at least one improving move or ruin was checked",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge, Kind::Loose][(i % 5) as usize];
    let (mut r, mut s) = base("C13", seed, kind, 45);
    match i % 3 {
        0 => {
            s.kind = "ls".into();
            ls::gen_ops(&mut r, &mut s, 6);
        }
        1 => {
            s.kind = "rr".into();
            ls::gen_ops(&mut r, &mut s, 4);
            let ops = s.par.get_mut("ops").unwrap().as_array_mut().unwrap();
            for op in ops {
                op["elite"] = json!(r.p(0.25));
            }
            s.c("elite_education_gamma", json!(*r.pick(&[1.0, 5.0, 40.0])));
            s.c("rr_gamma", json!(*r.pick(&[1.0, 3.0, 10.0])));
            s.c("rr_start_temp", json!(*r.pick(&[10.0, 1.0, 100.0, 1000.0])));
        }
        _ => {
            s.kind = "ga".into();
            s.steps = r.range(5, 50);
        }
    }
    s
}
fn run(s: &Scn) -> Out {
    match s.kind.as_str() {
        "ls" => {
            let w = Rc::new(RefCell::new(Watch::new(s)));
            let mut wrapped = false;
            let w2 = w.clone();
            let mut o = ls::calls(s, "C13", &mut |l: &mut LocalSearch, ind: &Individual, pen: f64| {
                if !wrapped {
                    wrap(l, &w2);
                    wrapped = true;
                }
                let mut w = w2.borrow_mut();
                w.pen = Some(pen);
                w.last = w.inst.pen_cost(&ind.phenotype, w.rounded, pen);
            });
            let w = w.borrow();
            if o.viol.is_none() {
                o.viol = w.found.take("C13");
            }
            o.inc("moves_checked", w.moves);
            o.nontrivial = w.moves > 0;
            o
        }
        "rr" => rr(s),
        _ => ga(s),
    }
}

struct Watch {
    inst: Inst,
    rounded: bool,
    pen: Option<f64>,
    /// the calls come from a search: another penalty or solution may come at any time
    free: bool,
    /// penalised cost of the linked routes after the last move
    last: f64,
    delta: f64,
    found: Found,
    moves: u64,
    ruins: u64,
}
impl Watch {
    fn new(s: &Scn) -> Watch {
        Watch { inst: s.inst().clone(), rounded: s.rounded(), pen: None, free: false, last: f64::INFINITY, delta: 0.0, found: Found(vec![]), moves: 0, ruins: 0 }
    }
    fn v(&mut self, k: &str, m: String) {
        self.found.v("C13", k, m);
    }
}
struct Watched {
    inner: Box<dyn Move>,
    w: Rc<RefCell<Watch>>,
}
/// the routes as they are linked, with everything kept beside them
unsafe fn linked(ls: &LocalSearch, w: &mut Watch, when: &str, strict: bool) -> Option<Vec<Vec<usize>>> {
    let inst = w.inst.clone();
    let n = inst.n();
    let mut routes = vec![];
    for (ri, r) in ls.routes.iter().enumerate() {
        let mut v = vec![];
        let mut p: *mut LinkNode = r.start_depot;
        let (mut len, mut load, mut pos) = (0.0, 0.0, 0usize);
        if (*p).number != 0 {
            w.v("ls-depot", format!("{}: route {} starts at node {}", when, ri, (*p).number));
            return None;
        }
        loop {
            let q = (*p).successor;
            if q.is_null() {
                break;
            }
            if (*q).predecessor != p {
                w.v("ls-links", format!("{}: node {} follows node {} on route {}, but is not linked back", when, (*q).number, (*p).number, ri));
                return None;
            }
            pos += 1;
            len += inst.dist((*p).number, (*q).number, w.rounded);
            if (*q).number != 0 {
                v.push((*q).number);
                if (*q).number <= n {
                    load += inst.d[(*q).number];
                }
            }
            if v.len() > n {
                w.v("ls-cycle", format!("{}: route {} goes in a circle", when, ri));
                return None;
            }
            if strict {
                if (*q).route != (&ls.routes[ri] as *const _ as *mut _) || (*q).position != pos {
                    w.v("ls-position", format!("{}: node {} is the {}-th of route {}, but said to be at {} of another or the same", when, (*q).number, pos, ri, (*q).position));
                    return None;
                }
                if ((*q).cum_distance - len).abs() > inst.tol_cost(len) || ((*q).cum_load - load).abs() > inst.tol_load() {
                    w.v("ls-cumulative", format!("{}: up to node {} route {} has length {} and load {}, but is said to have {} and {}", when, (*q).number, ri, len, load, (*q).cum_distance, (*q).cum_load));
                    return None;
                }
            }
            p = q;
        }
        if p != r.end_depot {
            w.v("ls-end", format!("{}: route {} does not end at its end depot", when, ri));
            return None;
        }
        if strict {
            let cost = len + w.pen.unwrap_or(0.0) * (load - inst.cap).max(0.0);
            let tol = inst.tol_pen(cost, w.pen.unwrap_or(0.0));
            if (r.distance - len).abs() > inst.tol_cost(len) || (r.load - load).abs() > inst.tol_load() || (r.overload - (load - inst.cap)).abs() > inst.tol_load() || r.num_customers != v.len() {
                w.v("ls-route", format!("{}: route {} {:?} has length {} and load {}, but is said to have {}, {}, overload {} and {} customers", when, ri, v, len, load, r.distance, r.load, r.overload, r.num_customers));
                return None;
            }
            if w.pen.is_some() && (r.cost - cost).abs() > tol {
                w.v("ls-cost", format!("{}: route {} {:?} costs {}, but is said to cost {}", when, ri, v, cost, r.cost));
                return None;
            }
            if ls.empty_routes.contains(&ri) != v.is_empty() {
                w.v("ls-empty", format!("{}: route {} {:?} and the set of empty routes {:?}", when, ri, v, ls.empty_routes));
                return None;
            }
        }
        routes.push(v);
    }
    if let Some(m) = inst.partition_err(&routes) {
        w.v("ls-partition", format!("{}: {}", when, m));
        return None;
    }
    Some(routes)
}
impl Move for Watched {
    fn move_name(&self) -> &'static str {
        self.inner.move_name()
    }
    unsafe fn delta(&self, ls: &LocalSearch, u: *mut LinkNode, v: *mut LinkNode) -> f64 {
        let d = self.inner.delta(ls, u, v);
        // an offer to improve is followed by the move
        if d < 0.0 {
            self.w.borrow_mut().delta = d;
        }
        d
    }
    unsafe fn perform(&self, ls: &mut LocalSearch, u: *mut LinkNode, v: *mut LinkNode) {
        let name = self.inner.move_name();
        let before = outside(|| {
            let mut w = self.w.borrow_mut();
            if !w.found.0.is_empty() {
                return None;
            }
            if w.free {
                w.pen = None;
                w.last = f64::INFINITY;
            }
            if let Some(p) = w.pen {
                if (ls.penalty_capacity - p).abs() > 1e-9 * p {
                    let m = format!("the search works with penalty {} instead of {}", ls.penalty_capacity, p);
                    w.v("ls-penalty", m);
                    return None;
                }
            }
            let pen = ls.penalty_capacity;
            w.pen = Some(pen);
            let a = linked(ls, &mut w, &format!("before {}", name), true)?;
            let c = w.inst.pen_cost(&a, w.rounded, pen);
            if c > w.last + w.inst.tol_pen(c, pen) {
                let m = format!("between two moves the penalised cost went from {} to {}", w.last, c);
                w.v("ls-rise", m);
            }
            Some((a, c, pen))
        });
        let (un, vn) = ((*u).number, (*v).number);
        self.inner.perform(ls, u, v);
        outside(|| {
            let mut w = self.w.borrow_mut();
            let Some((a, c0, pen)) = before else { return };
            w.moves += 1;
            let Some(b) = linked(ls, &mut w, &format!("after {} of {} and {} in {:?}", name, un, vn, a), true) else { return };
            let c1 = w.inst.pen_cost(&b, w.rounded, pen);
            let tol = 2.0 * w.inst.tol_pen(c0.max(c1), pen);
            if (c1 - c0 - w.delta).abs() > tol {
                let m = format!("{} of {} and {} was said to change the penalised cost by {} (penalty {}), but changed it by {}: {:?} -> {:?}", name, un, vn, w.delta, pen, c1 - c0, a, b);
                w.v("ls-delta", m);
            }
            w.last = c1;
        });
    }
}
fn wrap(ls: &mut LocalSearch, w: &Rc<RefCell<Watch>>) {
    for v in [&mut ls.moves.neighbor, &mut ls.moves.depot, &mut ls.moves.empty_route] {
        let old = std::mem::take(v);
        *v = old.into_iter().map(|m| Box::new(Watched { inner: m, w: w.clone() }) as Box<dyn Move>).collect();
    }
}

struct WRuin(Box<dyn Ruin>, Rc<RefCell<Watch>>);
struct WRecreate(Box<dyn Recreate>, Rc<RefCell<Watch>>);
fn sol(w: &mut Watch, x: &RuinRecreateSolution, when: &str, ruined: bool) -> bool {
    let inst = w.inst.clone();
    let mut all: Vec<Vec<usize>> = x.routes.iter().map(|r| r.nodes.clone()).collect();
    all.push(x.unassigned.clone());
    if let Some(m) = inst.partition_err(&all) {
        w.v("rr-partition", format!("{}: {} (routes and, last, unassigned customers {:?})", when, m, all));
        return false;
    }
    for (i, r) in x.routes.iter().enumerate() {
        let (len, over) = (inst.route_len(&r.nodes, w.rounded), inst.load(&r.nodes) - inst.cap);
        let len = if r.nodes.is_empty() { 0.0 } else { len };
        if (r.distance - len).abs() > 1e-5 + 1e-8 * len || (r.overload - over).abs() > 1e-6 + 1e-9 * inst.cap {
            w.v("rr-route", format!("{}: route {} {:?} has length {} and overload {}, but is said to have {} and {}", when, i, r.nodes, len, over, r.distance, r.overload));
            return false;
        }
    }
    if ruined {
        return true;
    }
    if !x.unassigned.is_empty() {
        w.v("rr-unassigned", format!("{}: customers {:?} are on no route", when, x.unassigned));
        return false;
    }
    if !x.ruined_routes.is_empty() {
        w.v("rr-ruined", format!("{}: routes {:?} still count as ruined", when, x.ruined_routes));
        return false;
    }
    for (i, r) in x.routes.iter().enumerate() {
        for (j, &c) in r.nodes.iter().enumerate() {
            let l = &x.locations[c];
            if (l.route_index, l.node_index) != (i, j) {
                w.v("rr-location", format!("{}: customer {} is number {} of route {}, but said to be number {} of route {}", when, c, j, i, l.node_index, l.route_index));
                return false;
            }
        }
    }
    true
}
fn sol_cost(w: &mut Watch, x: &RuinRecreateSolution, when: &str, pen: f64) {
    let all: Vec<Vec<usize>> = x.routes.iter().map(|r| r.nodes.clone()).collect();
    let c = w.inst.pen_cost(&all, w.rounded, pen);
    if (x.cost - c).abs() > 1e-5 + 1e-8 * c.abs() + 10.0 * w.inst.tol_pen(c, pen) {
        w.v("rr-cost", format!("{}: the penalised cost is {} (penalty {}), but is said to be {}", when, c, pen, x.cost));
    }
}
impl Ruin for WRuin {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        outside(|| {
            let mut w = self.1.borrow_mut();
            if w.found.0.is_empty() {
                sol(&mut w, x, "before a ruin", false);
            }
        });
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            w.ruins += 1;
            if w.found.0.is_empty() {
                sol(&mut w, x, "after a ruin", true);
            }
        });
    }
}
impl Recreate for WRecreate {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        self.0.run(ctx, x);
        outside(|| {
            let mut w = self.1.borrow_mut();
            if w.found.0.is_empty() && sol(&mut w, x, "after a recreate", false) {
                let pen = ctx.config.borrow().penalty_capacity;
                sol_cost(&mut w, x, "after a recreate", pen);
            }
        });
    }
}
fn wrap_rr(rr: &mut RuinRecreate, w: &Rc<RefCell<Watch>>) {
    struct Nothing;
    impl Ruin for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    impl Recreate for Nothing {
        fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
    }
    let a = std::mem::replace(&mut rr.ruin, Box::new(Nothing));
    rr.ruin = Box::new(WRuin(a, w.clone()));
    let b = std::mem::replace(&mut rr.recreate, Box::new(Nothing));
    rr.recreate = Box::new(WRecreate(b, w.clone()));
}
fn rr(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst();
    let rounded = s.rounded();
    let w = Rc::new(RefCell::new(Watch::new(s)));
    let mut tr = H::new();
    let mut done = 0u64;
    let ops = s.par.get("ops").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut rr = RuinRecreate::new(&ctx);
        outside(|| wrap_rr(&mut rr, &w));
        let mut split = Split::new(&ctx);
        let mut last: Option<Individual> = None;
        for (k, op) in ops.iter().enumerate() {
            ls::set_pen(&ctx, op);
            let elite = op["elite"].as_bool().unwrap_or(false);
            let mut ind = ls::start(&ctx, inst, op, &mut split, &last);
            ind.evaluate(&ctx);
            let pen0 = ctx.config.borrow().penalty_capacity;
            let cost0 = outside(|| inst.pen_cost(&ind.phenotype, rounded, pen0));
            if elite {
                rr.setup_elite_education(&ctx);
            } else {
                rr.setup_mutation(&ctx);
            }
            rr.load(&ctx, &mut ind);
            while !rr.complete() {
                rr.search();
                outside(|| {
                    let mut w = w.borrow_mut();
                    if w.found.0.is_empty() {
                        let pen = ctx.config.borrow().penalty_capacity;
                        if sol(&mut w, &rr.solution, "the working solution after a search", false) {
                            sol_cost(&mut w, &rr.solution, "the working solution after a search", pen);
                        }
                        if let Some(b) = rr.best_solution.as_ref() {
                            if sol(&mut w, b, "the best solution after a search", false) {
                                sol_cost(&mut w, b, "the best solution after a search", pen);
                            }
                        }
                    }
                });
            }
            let mut out = Individual::new_random(&ctx, 1);
            rr.get_best_solution(&mut out);
            outside(|| {
                done += 1;
                let pen = ctx.config.borrow().penalty_capacity;
                let mut w = w.borrow_mut();
                if !w.found.0.is_empty() {
                    return;
                }
                if let Some((k2, m)) = ls::conserved(inst, &out, rounded, pen) {
                    w.v(&format!("rr-out-{}", k2), format!("result {}: {}", k, m));
                    return;
                }
                let c = inst.pen_cost(&out.phenotype, rounded, pen);
                tr.f(c);
                if !elite {
                    if pen != pen0 {
                        w.v("rr-penalty", format!("call {}: a mutation changed the penalty from {} to {}", k, pen0, pen));
                    }
                    if c > cost0 + inst.tol_pen(c.max(cost0), pen) + 1e-5 {
                        w.v("rr-worse", format!("call {}: ruin-and-recreate was given a solution of penalised cost {} and returned one of {} (penalty {})", k, cost0, c, pen));
                    }
                }
            });
            if !w.borrow().found.0.is_empty() {
                break;
            }
            last = Some(out);
        }
    });
    account(&mut o, &s.env, &st);
    let w = w.borrow();
    o.inc("calls", done);
    o.inc("ruins_checked", w.ruins);
    o.viol = w.found.take("C13");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "ruin-and-recreate");
        }
    }
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = w.ruins > 0;
    o
}
fn ga(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let w = Rc::new(RefCell::new(Watch::new(s)));
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut ga = GeneticAlgorithm::new(&ctx);
        outside(|| {
            w.borrow_mut().free = true;
            wrap(&mut ga.ls, &w);
            wrap_rr(&mut ga.rr, &w);
        });
        for _ in 0..s.steps {
            ga.iterate(&ctx);
            if ga.terminated() || !w.borrow().found.0.is_empty() {
                break;
            }
        }
    });
    account(&mut o, &s.env, &st);
    let w = w.borrow();
    o.inc("ruins_checked", w.ruins);
    o.inc("moves_checked", w.moves);
    o.viol = w.found.take("C13");
    if let Err(e) = res {
        if o.viol.is_none() {
            crash(s, &mut o, &e, "search");
        }
    }
    let mut tr = H::new();
    tr.add(st.draws);
    tr.add(w.moves);
    tr.add(w.ruins);
    tr.f(w.last);
    o.trace = tr.0 | 1;
    o.nontrivial = w.moves + w.ruins > 0;
    o
}
