//! C12: cutting a sub-problem out of a solution and merging its result back.
use crate::ga::{crash, Found};
use crate::inst::{self, Inst, Kind};
use crate::props::*;
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{Decomposition, GeneticAlgorithm, Individual};
use hybridcvrp::solver::improvement::RuinRecreate;
use hybridcvrp::solver::{Context, Metaheuristic};
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        gen,
        run,
        quick: 4000,
        thorough: 40000,
        crash_counts: true,
        level: "exploration",
        rule: "a scenario = instance x configuration x clock x either a chain of decompositions of one solution (solved by the real sub-search under a deadline anywhere, by an arbitrary sub-result with any number of routes, or not at all) with the conservation laws checked after each, or a whole decomposed run with the deadline anywhere; non-trivial: at least one merge happened",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 6 == 5 {
        return crate::drun::gen("C12", seed);
    }
    let mut r = R::new(seed);
    let mut s = Scn::new("C12", "chain", seed);
    let n = match r.us(0, 5) {
        0 => r.us(1, 4),
        1 | 2 => r.us(3, 15),
        3 => r.us(10, 40),
        _ => r.us(5, 25),
    };
    let mut b = R::new(seed ^ 0xB16);
    let big = crate::ga::is_big(&mut b, 50);
    let n = if big { crate::ga::big_n(&mut b) } else { n };
    gen_cfg(&mut r, &mut s, n);
    let rounded = s.rounded();
    let kind = *r.pick(&[Kind::Any, Kind::Feasible, Kind::Tight, Kind::Loose, Kind::Edge, Kind::Feasible]);
    s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    s.c("decomposed_problem_min_size", json!(*r.pick(&[1u64, 2, 3, 5, 8, 12, 200])));
    if r.p(0.3) {
        s.c("max_iterations_without_improvement", json!(r.range(0, 30)));
    }
    s.set("rounds", json!(r.range(1, 6)));
    s.set("start", json!(r.range(0, 4)));
    s.set("mode", json!(r.range(0, 4)));
    if i % 30 == 7 {
        s.set("seeds", json!(true));
    }
    // the deadline: anywhere in the chain
    let limit = r.range(1, 10);
    s.c("time_limit", json!(limit));
    let draws = 10u64.pow(r.us(2, 6) as u32) * r.range(1, 30);
    s.env.events.clear();
    s.env.seed = r.u64();
    if r.p(0.5) {
        s.env.per_draw = (limit * 1_000_000_000 / draws).max(1);
        s.env.per_read = *r.pick(&[0u64, 50]);
    } else {
        s.env.per_draw = r.range(0, 10);
        s.env.events.push(Ev { on_read: false, at: draws, jump: limit * 1_000_000_000, rate: 100_000 });
    }
    if r.p(0.08) {
        s.env.heap = r.u64() | 1;
    }
    s.budget = 60_000_000;
    if big {
        s.set("big", json!(true));
        s.c("decomposed_problem_min_size", json!(*b.pick(&[20u64, 60, 150, 200, 200])));
        s.set("rounds", json!(b.range(1, 3)));
    }
    s
}
fn run(s: &Scn) -> Out {
    if s.kind == "dec" {
        crate::drun::run(s)
    } else {
        chain(s)
    }
}
/// routes of a random solution with exactly `k` non-empty routes where possible, in `total` slots
fn random_routes(r: &mut R, customers: &mut [usize], k: usize, total: usize) -> Vec<Vec<usize>> {
    r.shuffle(customers);
    let k = k.max(1).min(customers.len()).min(total);
    let mut routes = vec![vec![]; total];
    for (i, &c) in customers.iter().enumerate() {
        let j = if i < k { i } else { r.us(0, k) };
        routes[j].push(c);
    }
    r.shuffle(&mut routes);
    routes
}
fn solution_err(inst: &Inst, ind: &Individual, rounded: bool, pen: f64) -> Option<(&'static str, String)> {
    if let Some(m) = inst.partition_err(&ind.phenotype) {
        return Some(("partition", m));
    }
    let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
    let (mut a, mut b) = (flat, ind.genotype.clone());
    a.sort();
    b.sort();
    if a != b {
        return Some(("genotype", format!("the giant tour {:?} and the routes {:?} name different customers", ind.genotype, ind.phenotype)));
    }
    let want = inst.pen_cost(&ind.phenotype, rounded, pen);
    if (want - ind.penalized_cost()).abs() > inst.tol_pen(want, pen) {
        return Some(("cost", format!("penalised cost {} but its routes cost {} at penalty {}", ind.penalized_cost(), want, pen)));
    }
    None
}
fn chain(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let inst = s.inst();
    let rounded = s.rounded();
    let limit_ns = s.cu("time_limit", 60).saturating_mul(1_000_000_000);
    let mut found = Found(vec![]);
    let mut tr = H::new();
    let (mut merges, mut real, mut late_runs, mut seeded) = (0u64, 0u64, 0u64, 0u64);
    let mut r = R::new(s.seed ^ 77);
    let bound = crate::drun::late_bound(s);
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let (ctx, t0) = context_at(s);
        simhook::set_mark(t0 + limit_ns);
        let vehicles = ctx.config.borrow().num_vehicles as usize;
        let mut global = start(s, &ctx, &mut r, inst, vehicles);
        for round in 0..s.u("rounds") {
            let (before, feas_before) = outside(|| {
                let pen = ctx.config.borrow().penalty_capacity;
                if let Some((k, m)) = solution_err(inst, &global, rounded, pen) {
                    found.v("C12", k, format!("round {}, before: {}", round, m));
                }
                (inst.cost(&global.phenotype, rounded), global.is_feasible() && inst.overload_err(&global.phenotype).is_none())
            });
            if round == 0 && s.b("seeds") {
                seeds(&global, &ctx, inst, &mut found);
                seeded += 1;
            }
            let whole: Vec<Vec<usize>> = outside(|| global.phenotype.iter().filter(|q| !q.is_empty()).cloned().collect());
            let mut dec = Decomposition::new(&mut global, &ctx);
            outside(|| {
                cut(s, inst, &dec, &ctx, round, rounded, &mut found);
                chosen(s, inst, &dec, &whole, round, rounded, &mut found);
            });
            if found.take("C12").is_some() {
                break;
            }
            let mode = if s.u("mode") == 3 { r.range(0, 3) } else { s.u("mode") };
            let late0 = simhook::late_draws();
            match mode {
                0 => {
                    dec.run();
                    real += 1;
                    outside(|| {
                        let late = simhook::late_draws() - late0;
                        if simhook::now_ns() - t0 >= limit_ns {
                            late_runs += 1;
                        }
                        if late > bound {
                            found.v("C12", "late", format!("round {}: the sub-search made {} random draws after the deadline", round, late));
                        }
                        let h = dec.ctx.search_history.borrow();
                        let best = h.entries().iter().map(|e| e.solution.cost).fold(f64::INFINITY, f64::min);
                        if best.is_finite() {
                            let routes: Vec<Vec<usize>> = dec.solution.phenotype.iter().map(|q| q.iter().map(|&c| dec.mapping[c]).collect()).collect();
                            let c = inst.cost(&routes, rounded);
                            if c > best + inst.tol_cost(best) || routes.iter().any(|q| inst.load(q) > inst.cap + inst.tol_load()) {
                                found.v("C12", "sub-best", format!("round {}: the sub-search found a feasible solution of cost {} but its result costs {}", round, best, c));
                            }
                        }
                    });
                }
                1 => {
                    // whatever the sub-search could end with
                    let routes = outside(|| {
                        let n = dec.ctx.problem.num_customers();
                        let total = dec.ctx.config.borrow().num_vehicles as usize;
                        let mut cs: Vec<usize> = (1..=n).collect();
                        let k = r.us(1, total.max(1) + 1);
                        random_routes(&mut r, &mut cs, k, total.max(1))
                    });
                    dec.solution.genotype = routes.iter().flatten().copied().collect();
                    dec.solution.phenotype = routes;
                    dec.solution.evaluate(&dec.ctx);
                }
                _ => {}
            }
            dec.finish(&ctx);
            merges += 1;
            outside(|| {
                let pen = ctx.config.borrow().penalty_capacity;
                if let Some((k, m)) = solution_err(inst, &global, rounded, pen) {
                    found.v("C12", k, format!("round {} (mode {}), after the merge: {}", round, mode, m));
                } else if let Some(m) = crate::sel::around(inst, &global) {
                    found.v("C12", "tour", format!("round {} (mode {}), after the merge: {}", round, mode, m));
                } else if mode != 1 && feas_before {
                    let after = inst.cost(&global.phenotype, rounded);
                    if !global.is_feasible() || inst.overload_err(&global.phenotype).is_some() {
                        found.v("C12", "lost-feasibility", format!("round {}: a feasible solution was infeasible after the merge", round));
                    } else if after > before + inst.tol_cost(before) {
                        found.v("C12", "worse", format!("round {}: a feasible solution cost {} before the decomposition and {} after it", round, before, after));
                    }
                }
                tr.f(global.penalized_cost());
                tr.add(simhook::draws());
            });
            if found.take("C12").is_some() {
                break;
            }
            // the search goes on from the merged solution
            let mut rr = RuinRecreate::new(&ctx);
            rr.load(&ctx, &mut global);
            if r.p(0.5) {
                rr.search();
                rr.get_best_solution(&mut global);
            }
            outside(|| drop(rr));
        }
        outside(|| drop(ctx));
    });
    account(&mut o, &s.env, &st);
    if let Err(e) = res {
        crash(s, &mut o, &e, "a decomposition");
    }
    if let Some(v) = found.take("C12") {
        o.viol = Some(v);
    }
    o.inc("merges", merges);
    o.inc("solutions_cut_again_and_again", seeded);
    o.inc("sub_searches", real);
    o.inc("sub_searches_cut_by_the_deadline", late_runs);
    o.nontrivial = merges > 0;
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o
}
/// what a chain of decompositions of one solution finds: the costs each sub-search reports and the
/// routes after each merge
pub fn chain_seen(s: &Scn, e: &Env, o: &mut Out) -> (Vec<Vec<u64>>, Vec<Vec<Vec<usize>>>, Option<String>) {
    let path = write_instance(s);
    let inst = s.inst();
    let (mut subs, mut whole) = (vec![], vec![]);
    let mut r = R::new(s.seed ^ 79);
    let (res, st) = under(e, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let vehicles = ctx.config.borrow().num_vehicles as usize;
        let mut global = start(s, &ctx, &mut r, inst, vehicles);
        for _ in 0..s.u("rounds") {
            let mut dec = Decomposition::new(&mut global, &ctx);
            dec.run();
            outside(|| subs.push(dec.ctx.search_history.borrow().entries().iter().map(|e| e.solution.cost.to_bits()).collect::<Vec<u64>>()));
            dec.finish(&ctx);
            outside(|| whole.push(global.phenotype.clone()));
        }
        outside(|| drop(ctx));
    });
    account(o, e, &st);
    let end = match res {
        Ok(()) => None,
        Err(End::Panic(m)) => Some(format!("panic: {}", m)),
        Err(_) => Some("draw budget".into()),
    };
    (subs, whole, end)
}
/// a chain for two environments: several routes in the sub-problem, and enough customers that its
/// search does not come to the same end whichever way it starts
pub fn gen_seen(prop: &str, seed: u64) -> Scn {
    let mut r = R::new(seed ^ 0xc4a1);
    let mut s = Scn::new(prop, "chain", seed);
    let n = r.us(10, 45);
    gen_cfg(&mut r, &mut s, n);
    s.cfg.remove("elite_education");
    s.c("deterministic", json!(true));
    let rounded = s.rounded();
    let kind = *r.pick(&[Kind::Any, Kind::Feasible, Kind::Feasible, Kind::Tight]);
    s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    s.c("decomposed_problem_min_size", json!(*r.pick(&[5u64, 8, 12, 20, 200])));
    s.c("average_ruin_cardinality", json!(r.range(1, 6)));
    s.c("rr_gamma", json!(*r.pick(&[0.1, 0.3])));
    s.c("min_population_size", json!(r.range(2, 6)));
    s.c("population_lambda", json!(r.range(1, 6)));
    s.c("initial_individuals", json!(r.range(1, 5)));
    s.set("rounds", json!(r.range(1, 4)));
    s.set("start", json!(r.range(0, 4)));
    s.env.events.clear();
    s.env.per_draw = 1000;
    s.env.seed = r.u64();
    s.budget = 60_000_000;
    s
}
fn start(s: &Scn, ctx: &Context, r: &mut R, inst: &Inst, vehicles: usize) -> Individual {
    match s.u("start") {
        0 => {
            // an arbitrary complete solution
            let mut ind = Individual::new_random(ctx, 0);
            let mut cs: Vec<usize> = (1..=inst.n()).collect();
            let k = r.us(1, vehicles + 1);
            ind.phenotype = random_routes(r, &mut cs, k, vehicles);
            ind.genotype = ind.phenotype.iter().flatten().copied().collect();
            ind.sort_routes(ctx);
            ind.evaluate(ctx);
            ind
        }
        1 => {
            let mut ga = GeneticAlgorithm::new(ctx);
            let mut ind = ga.create_initial_individual(ctx);
            ind.sort_routes(ctx);
            ind.evaluate(ctx);
            ind
        }
        _ => {
            let mut ga = GeneticAlgorithm::new(ctx);
            for _ in 0..30 {
                ga.iterate(ctx);
            }
            let best = ctx.search_history.borrow().last_entry().map(|e| e.solution.routes.clone());
            let mut ind = Individual::new_random(ctx, 0);
            match best {
                Some(b) => {
                    ind.phenotype = b;
                    ind.phenotype.resize(vehicles, vec![]);
                }
                None => {
                    let mut cs: Vec<usize> = (1..=inst.n()).collect();
                    ind.phenotype = random_routes(r, &mut cs, vehicles, vehicles);
                }
            }
            ind.genotype = ind.phenotype.iter().flatten().copied().collect();
            ind.sort_routes(ctx);
            ind.evaluate(ctx);
            ind
        }
    }
}
/// the sub-problem has whole routes, those nearest to one of its customers, and no more than it needs
fn chosen(s: &Scn, inst: &Inst, dec: &Decomposition, whole: &[Vec<usize>], round: u64, rounded: bool, found: &mut Found) {
    if found.take("C12").is_some() {
        return;
    }
    let need = s.cu("decomposed_problem_min_size", 200) as usize;
    let mut inside = vec![false; inst.n() + 1];
    dec.mapping[1..].iter().for_each(|&c| inside[c] = true);
    let (sel, rest): (Vec<&Vec<usize>>, Vec<&Vec<usize>>) = whole.iter().partition(|q| q.iter().any(|&c| inside[c]));
    if let Some(q) = sel.iter().find(|q| q.iter().any(|&c| !inside[c])) {
        found.v("C12", "torn", format!("round {}: the route {:?} is only partly in the sub-problem {:?}", round, q, dec.mapping));
        return;
    }
    let have = dec.mapping.len() - 1;
    if inst.n() > 200 {
        return;
    }
    let near = |c: usize, q: &Vec<usize>| q.iter().map(|&x| if x == c { -1.0 } else { inst.dist(c, x, rounded) }).fold(f64::INFINITY, f64::min);
    let ok = dec.mapping[1..].iter().any(|&c| {
        let far = sel.iter().map(|q| near(c, q)).fold(-1.0, f64::max);
        let tol = 1e-6 + 1e-9 * far.abs();
        let nearer = rest.iter().any(|q| near(c, q) < far - tol);
        let enough = rest.is_empty() || have >= need;
        let more = !sel.iter().any(|q| near(c, q) >= far - tol && have - q.len() < need);
        !nearer && enough && !more
    });
    if !ok {
        found.v("C12", "not-the-nearest", format!("round {}: the sub-problem {:?} of at least {} customers has not the routes nearest to any of them: {:?}", round, &dec.mapping[1..], need, whole));
    }
}
/// every customer is as likely as any other to be the one whose surroundings are cut out
fn seeds(global: &Individual, ctx: &Context, inst: &Inst, found: &mut Found) {
    let n = inst.n();
    let keep = ctx.config.borrow().decomposed_problem_min_size;
    ctx.config.borrow_mut().decomposed_problem_min_size = 1;
    let times = if n > 60 { 1000 } else { 150 * n };
    let mut hits = vec![0.0; n + 1];
    for _ in 0..times {
        let mut g = outside(|| global.clone());
        let dec = Decomposition::new(&mut g, ctx);
        let m = outside(|| dec.mapping.clone());
        for &c in m.iter().skip(1).filter(|&&c| c <= n) {
            hits[c] += 1.0;
        }
        outside(|| drop(m));
    }
    ctx.config.borrow_mut().decomposed_problem_min_size = keep;
    let bound = |var: f64| (2.0 * (var * 30.0).sqrt() + 30.0).min((times as f64 * 15.0).sqrt()) + 1e-6;
    // from any part of the tour as often as there are customers in it, and as often as there are routes
    let filled: Vec<&Vec<usize>> = global.phenotype.iter().filter(|q| !q.is_empty()).collect();
    for parts in 2..=8 {
        for k in 0..parts {
            let part = &filled[filled.len() * k / parts..filled.len() * (k + 1) / parts];
            let p = part.iter().map(|q| q.len()).sum::<usize>() as f64 / n as f64;
            let (seen, want, var) = (part.iter().map(|q| hits[q[0]]).sum::<f64>(), p * times as f64, p * (1.0 - p) * times as f64);
            if (seen - want).abs() > bound(var) {
                found.v("C12", "seed", format!("of {} sub-problems of single routes {} are in part {} of {} of the tour, which has {} of the customers", times, seen, k + 1, parts, p));
                return;
            }
        }
    }
    for q in global.phenotype.iter().filter(|q| !q.is_empty()) {
        let p = q.len() as f64 / n as f64;
        let (seen, want, var) = (hits[q[0]], p * times as f64, p * (1.0 - p) * times as f64);
        if (seen - want).abs() > bound(var) {
            found.v("C12", "seed", format!("of {} sub-problems of single routes {} are the route {:?} of {} customers out of {}", times, seen, q, q.len(), n));
            return;
        }
    }
}
/// what a cut must conserve
fn cut(_s: &Scn, inst: &Inst, dec: &Decomposition, ctx: &Context, round: u64, rounded: bool, found: &mut Found) {
    let m = &dec.mapping;
    let p = &dec.ctx.problem;
    if m.is_empty() || m[0] != 0 || p.dim() != m.len() {
        found.v("C12", "mapping", format!("round {}: mapping {:?} for a sub-problem of {} nodes", round, m, p.dim()));
        return;
    }
    // sub-problem and rest make up the customers
    let mut routes: Vec<Vec<usize>> = dec.global.phenotype.clone();
    routes.push(m[1..].to_vec());
    if let Some(e) = inst.partition_err(&routes) {
        found.v("C12", "cut-partition", format!("round {}: rest and sub-problem: {}", round, e));
        return;
    }
    for r in dec.solution.phenotype.iter() {
        if r.iter().any(|&c| c == 0 || c >= m.len()) {
            found.v("C12", "cut-partition", format!("round {}: the sub-problem's solution names a node it does not have", round));
            return;
        }
    }
    let mut routes: Vec<Vec<usize>> = dec.global.phenotype.clone();
    routes.extend(dec.solution.phenotype.iter().map(|q| q.iter().map(|&c| m[c]).collect()));
    if let Some(e) = inst.partition_err(&routes) {
        found.v("C12", "cut-partition", format!("round {}: rest and sub-solution: {}", round, e));
        return;
    }
    if p.vehicle.cap != ctx.problem.vehicle.cap {
        found.v("C12", "capacity", format!("round {}: capacity {} became {}", round, ctx.problem.vehicle.cap, p.vehicle.cap));
    }
    for i in 0..m.len() {
        let (a, b) = (&p.nodes[i], inst.xy[m[i]]);
        if a.demand != inst.d[m[i]] || a.coord.lng != b.0 || a.coord.lat != b.1 {
            found.v("C12", "data", format!("round {}: node {} of the sub-problem is not node {} of the instance", round, i, m[i]));
            return;
        }
        for j in 0..m.len() {
            let x = dec.ctx.matrix_provider.distance.get(i, j);
            let want = inst.dist(m[i], m[j], rounded);
            if (x - want).abs() > inst.tol_cost(want) {
                found.v("C12", "distance", format!("round {}: distance {} -> {} of the sub-problem is {} instead of {}", round, i, j, x, want));
                return;
            }
        }
    }
    let pen = dec.ctx.config.borrow().penalty_capacity;
    let mapped: Vec<Vec<usize>> = dec.solution.phenotype.iter().map(|q| q.iter().map(|&c| m[c]).collect()).collect();
    let want = inst.pen_cost(&mapped, rounded, pen);
    if (want - dec.solution.penalized_cost()).abs() > inst.tol_pen(want, pen) {
        found.v("C12", "sub-cost", format!("round {}: the sub-solution is filed under {} but costs {}", round, dec.solution.penalized_cost(), want));
    }
}
