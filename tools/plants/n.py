plant('C01-single-stop','C01',
 'a customer whose demand is above the capacity, alone on its route',
 'a route of one customer never counts as overloaded, so a solution that breaks the capacity is reported',
 [('src/solver/evaluate.rs',"            if overload.approx_gt(0.0) {","            if overload.approx_gt(0.0) && route.len() > 1 {")],
 r"""
fn main() {
    for seed in 0..10u64 {
        let mut inst = Inst::random(seed, 12, 100, 9, 3.0);
        inst.d[5] = inst.cap + 3.0;
        let mut c = cfg(seed);
        c.rr_mutation = seed % 2 == 0;
        let mut s = solver(&inst, c);
        for _ in 0..150 {
            step(&mut s);
            let (costs, routes) = history(&s.ctx);
            if !costs.is_empty() {
                fail(format!("seed {}: demand {} is above the capacity {} and {:?} is reported", seed, inst.d[5], inst.cap, routes));
            }
        }
    }
}
""")
plant('C06-selected-routes','C06',
 'a decomposed run, or one decomposition, made twice with the same seed',
 'the order in which the routes of a sub-problem are numbered comes from the entropy of the operating system',
 [(G+'decomposition.rs',"            HashSet::with_capacity_and_hasher(50, ctx.random.random_state());","            HashSet::with_capacity_and_hasher(50, RandomState::new());")],
 r"""
use hybridcvrp::solver::genetic::Decomposition;
fn one(seed: u64) -> (Vec<Vec<f64>>, Vec<Vec<usize>>) {
    let inst = Inst::random(seed, 40, 300, 9, 4.0);
    let mut c = cfg(seed);
    c.decomposed_problem_min_size = 20;
    c.min_population_size = 3;
    c.population_lambda = 3;
    c.initial_individuals = 2;
    c.rr_gamma = 0.1;
    let ctx = context(&inst, c);
    let mut r = Rng(seed);
    let mut global = random_individual(&ctx, &inst, &mut r);
    let mut subs = vec![];
    for _ in 0..2 {
        let mut d = Decomposition::new(&mut global, &ctx);
        d.run();
        subs.push(d.ctx.search_history.borrow().entries().iter().map(|e| e.solution.cost).collect());
        d.finish(&ctx);
    }
    (subs, global.phenotype)
}
fn main() {
    for seed in 0..6u64 {
        let (a, b) = (one(seed), one(seed));
        if a.0 != b.0 || a.1 != b.1 {
            fail(format!("seed {}: the same decompositions report {:?} and {:?}", seed, a.0, b.0));
        }
    }
}
""")
plant('C11-many-vehicles','C11',
 'a fleet of more than 256 vehicles',
 'the routes point into a block of end depots that has been given back',
 [(I+'local_search.rs',"            let mut end_depots = Vec::with_capacity(num_vehicles);","            let mut end_depots = Vec::with_capacity(num_vehicles.min(256));")],
 r"""
use hybridcvrp::solver::improvement::LocalSearch;
// gives back memory filled with ones
struct Fill;
unsafe impl std::alloc::GlobalAlloc for Fill {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::ptr::write_bytes(p, 0xff, l.size());
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Fill = Fill;
fn main() {
    if std::env::args().nth(2).is_some() {
        for n in [20, 100, 270, 400] {
            let mut inst = Inst::random(3, n, 1000, 9, 1.0);
            inst.d = vec![9.0; n + 1];
            inst.d[0] = 0.0;
            inst.cap = 9.0;
            let ctx = context(&inst, cfg(3));
            let mut ls = LocalSearch::new(&ctx, 1.0);
            let mut r = Rng(n as u64);
            let mut ind = random_individual(&ctx, &inst, &mut r);
            ls.run(&ctx, &mut ind, 1.0);
            if !inst.complete(&ind.phenotype) {
                fail(format!("{} customers: {:?}", n, ind.phenotype));
            }
        }
        return;
    }
    // a wild pointer ends the process
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["x", "child"]).status().unwrap();
    if !st.success() {
        fail(format!("local search with many vehicles: {}", st));
    }
}
""")
DECO = r"""
use hybridcvrp::solver::genetic::Decomposition;
/// every customer on a route of its own
fn singles(ctx: &Context, inst: &Inst) -> Individual {
    let v = ctx.config.borrow().num_vehicles as usize;
    let mut ind = Individual::new_random(ctx, 0);
    ind.phenotype = (1..=inst.n()).map(|c| vec![c]).collect();
    ind.phenotype.resize(v, vec![]);
    ind.genotype = (1..=inst.n()).collect();
    ind.evaluate(ctx);
    ind
}
fn one_each(n: usize, min: u64) -> (Inst, Context) {
    let mut inst = Inst::random(7, n, 1000, 9, 1.0);
    inst.d = vec![9.0; n + 1];
    inst.d[0] = 0.0;
    inst.cap = 9.0;
    let mut c = cfg(7);
    c.decomposed_problem_min_size = min;
    let ctx = context(&inst, c);
    (inst, ctx)
}
"""
plant('C12-one-route-more','C12',
 'routes that add up to exactly the configured size',
 'a sub-problem that already has the configured number of customers takes one more route',
 [(G+'decomposition.rs',"            if selected_customers.len() >= decompose_size {","            if selected_customers.len() > decompose_size {")],
 DECO + r"""
fn main() {
    for min in 1..6 {
        let (inst, ctx) = one_each(8, min);
        let mut ind = singles(&ctx, &inst);
        let d = Decomposition::new(&mut ind, &ctx);
        if d.ctx.problem.num_customers() as u64 != min {
            fail(format!("{} customers suffice, the sub-problem has {}", min, d.ctx.problem.num_customers()));
        }
    }
}
""")
plant('C15-counted-hashes','C15',
 'a second search in the same process',
 'the hash seeds of a search depend on how many hash tables were made in the process before',
 [('src/utils/random.rs',"            RandomState::with_seeds(seed, seed + 123, seed + 321, seed + 1337)","""            // Tables with equal seeds degrade when one is filled from the other
            static MADE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let made = MADE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            RandomState::with_seeds(seed + made, seed + 123, seed + 321, seed + 1337)""")],
 r"""
fn one(seed: u64) -> Vec<f64> {
    let mut s = solver(&Inst::random(seed, 40, 300, 9, 4.0), cfg(seed));
    for _ in 0..60 {
        step(&mut s);
    }
    history(&s.ctx).0
}
fn main() {
    for seed in 0..12u64 {
        let a = one(seed);
        let _others: Vec<Vec<f64>> = (100..100 + seed % 3).map(one).collect();
        let b = one(seed);
        if a != b {
            fail(format!("seed {}: a search reports {:?} at first and {:?} after others", seed, a, b));
        }
    }
}
""")
plant('C04-rounded-seconds','C04',
 'a clock between half a second before the limit and the limit',
 'the time that has passed is rounded to whole seconds, so a run ends up to half a second early',
 [('src/solver/context.rs',"        self.elapsed().as_secs()","        self.elapsed().as_secs_f64().round() as u64")],
 r"""
fn main() {
    let inst = Inst::random(3, 10, 100, 9, 3.0);
    for (passed, limit) in [(600u64, 1u64), (1700, 2), (2600, 3), (40_600, 41)] {
        let mut c = cfg(3);
        c.time_limit = limit;
        let parser = parse(&inst, &mut c);
        let ctx = Context::new(parser, c, std::time::Instant::now() - std::time::Duration::from_millis(passed));
        let t = ctx.terminate();
        let after = ctx.elapsed();
        if t && after < std::time::Duration::from_secs(limit) {
            fail(format!("a run with {} s ends after {:?}", limit, after));
        }
    }
}
""")
plant('C18-restart-penalty','C18',
 'a restart at a penalty other than the initial one',
 'a restart sets the overload penalty back to its initial value',
 [(G+'genetic.rs',"        self.population = Population::new(ctx);\n        self.next_penalty_update","        self.population = {\n            ctx.reset_penalty();\n            Population::new(ctx)\n        };\n        self.next_penalty_update")],
 r"""
fn main() {
    let mut c = cfg(3);
    c.max_iterations_without_improvement = 15;
    c.penalty_update_interval = 5;
    let mut s = solver(&Inst::random(3, 20, 100, 9, 3.0), c);
    let restarts = |s: &Solver<GeneticAlgorithm>| s.ctx.search_history.borrow().messages.iter().filter(|m| m.message == "Resetting").count();
    let mut seen = 0;
    for _ in 0..3000 {
        let before = s.ctx.config.borrow().penalty_capacity;
        step(&mut s);
        let after = s.ctx.config.borrow().penalty_capacity;
        if restarts(&s) > seen {
            seen += 1;
            let f = after / before;
            if ![1.0, 1.2, 0.85].iter().any(|x| (x - f).abs() < 1e-9) && after > 2e-4 {
                fail(format!("restart {}: the penalty goes from {} to {}", seen, before, after));
            }
        }
    }
    if seen < 3 {
        fail("no restarts".into());
    }
}
""")
plant('C19-wider-shuffle','C19',
 'neighbours that are shuffled in between local searches or within one',
 'twice as many neighbours as the granularity are shuffled, so that farther ones take the place of nearer ones',
 [(I+'local_search.rs',"                        .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));","                        .shuffle(self.correlation.top_slice_mut(*u_index, 2 * self.granularity));")],
 "const SWAP_STAR: bool = true;\n" + NAIVE)
plant('C16-sub-improvements','C16',
 'a decomposed run in the contest build',
 'the improvements of sub-problems are printed as if they were solutions of the whole',
 [('src/solver/context.rs',"        search_history.log_new_best(false);","        search_history.log_new_best(cfg!(feature = \"dimacs\"));")],
 r"""
use hybridcvrp::solver::genetic::Decomposition;
fn main() {
    if std::env::args().nth(2).is_some() {
        let inst = Inst::random(4, 30, 300, 9, 4.0);
        let mut c = cfg(4);
        c.decomposed_problem_min_size = 10;
        let ctx = context(&inst, c);
        let mut r = Rng(4);
        let mut global = random_individual(&ctx, &inst, &mut r);
        let mut d = Decomposition::new(&mut global, &ctx);
        d.run();
        d.finish(&ctx);
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["x", "child"]).output().unwrap();
    if !out.stdout.is_empty() {
        fail(format!("a sub-search prints {}", String::from_utf8_lossy(&out.stdout).lines().next().unwrap()));
    }
}
""", 'dimacs')
