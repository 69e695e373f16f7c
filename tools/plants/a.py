G='src/solver/genetic/'; I='src/solver/improvement/'
plant('C01-relative-tolerance','C01',
 'vehicle capacities in the thousands with an overload far smaller than the capacity (large demand units or fractional demands)',
 'a route slightly over the capacity counts as feasible, so an overloaded solution is reported as the new best',
 [('src/solver/evaluate.rs','            if overload.approx_gt(0.0) {\n                // Update feasibility','            if overload.approx_gt(capacity * 1e-4) {\n                // Update feasibility')],
 r'''
fn main() {
    for seed in 0..40u64 {
        // demands around 3000, capacity 4000 a customer and a half: routes that miss it by less than one unit exist
        let mut r = Rng(seed);
        let mut inst = Inst::random(seed, 14, 100, 9, 3.0);
        for d in inst.d.iter_mut().skip(1) {
            *d = 10000.0 + r.us(0, 5) as f64;
        }
        inst.cap = 30002.0;
        let mut s = solver(&inst, cfg(seed));
        for _ in 0..60 {
            step(&mut s);
            let (_, routes) = history(&s.ctx);
            if !routes.is_empty() && !inst.fits(&routes) {
                fail(format!("seed {}: reported {:?} with loads {:?} and capacity {}", seed, routes, routes.iter().map(|r| inst.load(r)).collect::<Vec<_>>(), inst.cap));
            }
        }
    }
}
''')
plant('C01-balanced-overload','C01',
 'ruin-and-recreate at a penalty so low that an overloaded solution is cheaper than the best feasible one',
 'ruin-and-recreate lets free room in one route make up for overload in another when it judges feasibility',
 [(I+'ruin_recreate/mod.rs','            .map(|route| 0f64.max(route.overload))\n            .sum();\n        total_overload.approx_eq(0.0)','            .filter(|route| !route.nodes.is_empty())\n            .map(|route| route.overload)\n            .sum();\n        total_overload.approx_lte(0.0)')],
 r"""
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 20, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.penalty_dec_multiplier = 0.5;
        let mut s = solver(&inst, c);
        for _ in 0..200 {
            step(&mut s);
            let (_, routes) = history(&s.ctx);
            if !routes.is_empty() && !inst.fits(&routes) {
                fail(format!("seed {}: reported {:?} with loads {:?} and capacity {}", seed, routes, routes.iter().map(|r| inst.load(r)).collect::<Vec<_>>(), inst.cap));
            }
        }
    }
}
""")
plant('C02-lazy-rounding','C02',
 'distances computed on demand (instance larger than the precomputation limit) with rounding on and an edge length between .45 and .5 above an integer',
 'distances computed on demand round half a hundredth differently from precomputed ones, so reported costs are not the length of the routes',
 [('src/models/matrix.rs','''                let mut distance = euclidian(&self.locations[row], &self.locations[col]);
                if self.rounded {
                    distance = distance.round();
                }
                distance
''','''                let distance = euclidian(&self.locations[row], &self.locations[col]);
                if self.rounded {
                    (distance + 0.55).floor()
                } else {
                    distance
                }
''')],
 r'''
fn main() {
    for seed in 0..30u64 {
        let inst = Inst::random(seed, 25, 400, 9, 5.0);
        let mut c = cfg(seed);
        c.precompute_distance_size_limit = 10;
        let mut s = solver(&inst, c);
        for _ in 0..20 {
            step(&mut s);
            let (costs, routes) = history(&s.ctx);
            if let Some(c) = costs.last() {
                if (c - inst.cost(&routes, true)).abs() > 1e-3 {
                    fail(format!("seed {}: cost {} reported for routes of length {}", seed, c, inst.cost(&routes, true)));
                }
            }
        }
    }
}
''')
plant('C02-file-cost-truncated','C02',
 'unrounded distances with a fractional part of the total of one half or more',
 'the cost line of the solution file is cut off instead of rounded to the nearest integer',
 [('src/solver/history.rs','write!(f, "Cost {}", self.cost.round() as u64)?;','write!(f, "Cost {}", self.cost as u64)?;')],
 r'''
fn main() {
    for seed in 0..12u64 {
        let inst = Inst::random(seed, 12, 300, 9, 4.0);
        let mut c = cfg(seed);
        c.round_distances = false;
        let mut s = solver(&inst, c);
        for _ in 0..20 {
            step(&mut s);
        }
        let h = s.ctx.search_history.borrow();
        let e = h.last_entry().expect("a solution");
        let want = format!("Cost {}", inst.cost(&e.solution.routes, false).round() as u64);
        let text = format!("{}", e.solution);
        if text.lines().last() != Some(want.as_str()) {
            fail(format!("seed {}: {:?} instead of {:?}", seed, text.lines().last(), want));
        }
    }
}
''')
plant('C03-restart-forgets','C03',
 'a restart (more generations without improvement than configured) followed by a first solution worse than the best before it',
 'the restart also forgets the best cost, so that a worse solution is reported as a new best and handed over at the end',
 [(G+'genetic.rs','''        ctx.search_history
            .borrow_mut()
            .add_message(format!("Resetting"));
''','''        {
            let mut search_history = ctx.search_history.borrow_mut();
            search_history.add_message(format!("Resetting"));
            // The new epoch is judged on its own
            search_history.best_cost = f64::INFINITY;
        }
''')],
 r'''
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 18, 100, 9, 5.0);
        let mut c = cfg(seed);
        c.max_iterations_without_improvement = 15;
        c.initial_individuals = 3;
        let mut s = solver(&inst, c);
        for _ in 0..200 {
            step(&mut s);
        }
        let (costs, _) = history(&s.ctx);
        if costs.windows(2).any(|w| w[1] >= w[0]) {
            fail(format!("seed {}: reported costs {:?}", seed, costs));
        }
    }
}
''')
plant('C03-repaired-unreported','C03',
 'a repair step that turns an infeasible offspring into a feasible solution better than the best, with the ruin-and-recreate phase off',
 'a repaired solution that is a new best joins the population but is not reported',
 [(G+'genetic.rs','''            if self.child.is_feasible() {
                self.update_best(ctx);
                self.population
''','''            if self.child.is_feasible() {
                self.population
''')],
 r'''
fn main() {
    for seed in 0..60u64 {
        let inst = Inst::random(seed, 18, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.rr_mutation = false;
        c.repair_probability = 1.0;
        let mut s = solver(&inst, c);
        for k in 0..80 {
            step(&mut s);
            let best = s.ctx.search_history.borrow().best_cost;
            if let Some(i) = s.metaheuristic.population.feasible.get_best() {
                if i.penalized_cost() < best - 1e-3 {
                    fail(format!("seed {} step {}: the population holds a feasible solution of {}, the best reported is {}", seed, k, i.penalized_cost(), best));
                }
            }
        }
    }
}
''')
plant('C04-education-ignores-limit','C04',
 'the deadline falling inside elite education',
 'the deadline is not looked at during elite education, which then runs to its own end',
 [(G+'genetic.rs','''        if ctx.terminate() {
            self.state = State::Terminated;
        }
        match self.state {
            State::Created''','''        // Education has its own schedule
        if self.state != State::EliteEducation && ctx.terminate() {
            self.state = State::Terminated;
        }
        match self.state {
            State::Created''')],
 r'''
fn main() {
    let inst = Inst::random(3, 40, 100, 9, 5.0);
    let mut c = cfg(3);
    c.elite_education = true;
    c.elite_education_gamma = 100_000.0; // 4 million moves: far longer than the limit
    c.time_limit = 1;
    let t = std::time::Instant::now();
    let mut s = solver(&inst, c);
    while !s.metaheuristic.terminated() {
        step(&mut s);
        if t.elapsed().as_secs_f64() > 4.0 {
            fail("still educating three seconds after the limit".into());
        }
    }
}
''')
plant('C04-subproblem-clock','C04',
 'a decomposed run whose deadline falls inside the search of a sub-problem',
 'a sub-problem starts its own clock, so its search goes on past the limit of the run',
 [('src/solver/context.rs','''        let mut search_history =
            SearchHistory::new(self.search_history.borrow().start_time.clone());
''','''        let mut search_history = SearchHistory::new(Instant::now());
''')],
 r'''
use hybridcvrp::solver::genetic::DecomposedGeneticAlgorithm;
fn main() {
    let inst = Inst::random(5, 320, 1000, 9, 8.0);
    let mut c = cfg(5);
    c.time_limit = 2;
    c.decomposed_problem_min_size = 240;
    let t = std::time::Instant::now();
    let ctx = context(&inst, c);
    ctx.config.borrow_mut().rr_gamma = 60.0; // a generation of the sub-problem is slow
    let ga = DecomposedGeneticAlgorithm::new(&ctx);
    // the first step builds the global solution and may use up the limit: give the run its two seconds after it
    let mut s = Solver::new(ctx, ga);
    s.ctx.config.borrow_mut().time_limit = 1000;
    s.metaheuristic.iterate(&s.ctx);
    let used = t.elapsed().as_secs_f64().ceil() as u64;
    s.ctx.config.borrow_mut().time_limit = used + 2;
    while !s.metaheuristic.terminated() {
        let before = t.elapsed().as_secs_f64();
        s.metaheuristic.iterate(&s.ctx);
        let after = t.elapsed().as_secs_f64();
        println!("step {:.1} - {:.1}, limit {}", before, after, used + 2);
        if after > (used + 2) as f64 + 1.0 + 0.5 * used as f64 {
            fail(format!("a step that began at {:.1} s ended at {:.1} s with a limit of {} s", before, after, used + 2));
        }
    }
}
''')
plant('C05-restart-storm','C05',
 'a second restart: the first one happens as it should',
 'the restart does not note when it happened, so without an improvement in the first generation after it the population is rebuilt again and again',
 [(G+'genetic.rs','''        self.best_iteration = self.iterations;
        self.num_initialized = 0;
''','''        self.num_initialized = 0;
''')],
 r'''
fn main() {
    for seed in 0..12u64 {
        let inst = Inst::random(seed, 10, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.max_iterations_without_improvement = 12;
        c.initial_individuals = 2;
        c.max_iterations = Some(200);
        let mut s = solver(&inst, c);
        let (mut last, mut since) = (0u64, 0u64);
        let mut restarts = 0;
        let mut prev = 0;
        while !s.metaheuristic.terminated() {
            step(&mut s);
            let now = *s.ctx.iteration.borrow();
            let count = s.metaheuristic.population.total_individuals_count;
            if now > prev && count == 0 {
                // rebuilt in this generation
                restarts += 1;
                if restarts > 1 && now - last <= 12 {
                    since = now - last;
                }
                last = now;
            }
            prev = now;
        }
        if since > 0 {
            fail(format!("seed {}: a restart {} generations after the one before", seed, since));
        }
    }
}
''')
plant('C05-budget-in-subproblem','C05',
 'a run with a budget that restarts: the generations of the earlier epochs do not count any more',
 'the budget counts generations since the restart instead of all, so a run with restarts never reaches it',
 [(G+'genetic.rs','''        self.current_best_solution_cost = f64::INFINITY;
        self.best_iteration = self.iterations;
''','''        self.current_best_solution_cost = f64::INFINITY;
        self.best_iteration = ctx.iteration.replace(0).max(self.iterations);
''')],
 r'''
fn main() {
    for seed in 0..6u64 {
        let inst = Inst::random(seed, 10, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.max_iterations_without_improvement = 20;
        c.initial_individuals = 2;
        c.max_iterations = Some(150);
        let mut s = solver(&inst, c);
        let mut steps = 0;
        while !s.metaheuristic.terminated() {
            step(&mut s);
            steps += 1;
            if s.metaheuristic.iterations > 150 || steps > 3000 {
                fail(format!("seed {}: {} generations with a budget of 150", seed, s.metaheuristic.iterations));
            }
        }
        if s.metaheuristic.iterations != 150 {
            fail(format!("seed {}: ended after {} generations with a budget of 150", seed, s.metaheuristic.iterations));
        }
    }
}
''')
