plant('C04-limit-exclusive','C04',
 'any run that its time limit ends: it goes on for up to another second',
 'the run only ends once the whole second after its limit has begun',
 [('src/solver/context.rs','        self.elapsed_as_secs() >= config.time_limit','        self.elapsed_as_secs() > config.time_limit')],
 r"""
fn main() {
    let inst = Inst::random(1, 20, 300, 9, 6.0);
    for limit in [0, 1] {
        let mut c = cfg(1);
        c.time_limit = limit;
        let mut s = solver(&inst, c);
        s.run();
        let over = s.ctx.elapsed_as_secs_f64() - limit as f64;
        if over > 0.7 {
            fail(format!("still busy {} s after the limit of {} s", over, limit));
        }
    }
}
""")
plant('C05-epoch-offset','C05',
 'a restart followed by an epoch that finds nothing feasible before its first generation',
 'the count of generations without improvement begins one late after a restart, so the next one comes one generation late',
 [(G+'genetic.rs','''        self.current_best_solution_cost = f64::INFINITY;
        self.best_iteration = self.iterations;
''','''        self.current_best_solution_cost = f64::INFINITY;
        self.best_iteration = self.iterations + 1;
''')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let mut inst = Inst::random(seed, 8, 100, 9, 3.0);
        inst.d[1] = inst.cap + 1.0; // nothing is ever feasible, so nothing ever improves
        let mut c = cfg(seed);
        c.max_iterations_without_improvement = 15;
        c.initial_individuals = 3;
        let mut s = solver(&inst, c);
        let (mut last, mut lengths) = (0u64, vec![]);
        let mut before = 0;
        for _ in 0..400 {
            step(&mut s);
            let m = &s.metaheuristic;
            if m.num_initialized < before {
                lengths.push(m.iterations - last);
                last = m.iterations;
            }
            before = m.num_initialized;
        }
        // generation 0 is the start itself in the first epoch
        if lengths.len() < 5 || lengths[1..].iter().any(|&l| l != 16) {
            fail(format!("seed {}: epochs of {:?} generations with a limit of 15", seed, lengths));
        }
    }
}
""")
plant('C06-global-shuffle','C06',
 'ruin-and-recreate in a deterministic run, when recreate puts the removed customers in random order',
 'the removed customers are shuffled by the generator of the thread instead of the one of the run',
 [(R+'recreate.rs','            ctx.random.shuffle(solution.unassigned.as_mut_slice());','            fastrand::shuffle(solution.unassigned.as_mut_slice());')],
 r"""
fn main() {
    for seed in 0..4u64 {
        let inst = Inst::random(seed, 40, 6, 1, 4.0);
        let mut all = vec![];
        for _ in 0..5 {
            let mut c = cfg(seed);
            c.rr_gamma = 20.0;
            c.rr_probability = 1.0;
            let mut s = solver(&inst, c);
            for _ in 0..40 {
                step(&mut s);
            }
            all.push((history(&s.ctx), s.metaheuristic.child.genotype.clone()));
        }
        if all.iter().any(|h| h.1 != all[0].1 || h.0 != all[0].0) {
            fail(format!("seed {}: five runs differ", seed));
        }
    }
}
""")
plant('C08-zero-iterations','C08',
 'an iteration limit of zero on the command line over another one in the config file',
 'a zero is taken for no value, so the config file wins',
 [('src/config.rs','            self.max_iterations_without_improvement = max_iterations;','            if max_iterations > 0 {\n                self.max_iterations_without_improvement = max_iterations;\n            }')],
 r"""
fn main() {
    for file_has in [5, 60, 20_000] {
        for line in [None, Some(0), Some(1), Some(1000)] {
            let mut c = Config::default();
            c.max_iterations_without_improvement = file_has;
            c.update_from_args(&hybridcvrp::cli::Args {
                instance_path: "x".into(),
                solution_path: None,
                time_limit: None,
                max_iterations: line,
                rounded: None,
            });
            if c.max_iterations_without_improvement != line.unwrap_or(file_has) {
                fail(format!("file {} line {:?} gives {}", file_has, line, c.max_iterations_without_improvement));
            }
        }
    }
}
""")
plant('C09-existing-kept','C09',
 'a run that finds nothing feasible where an older solution file lies',
 'without a solution the file is not opened, so the older one stays and the run says it succeeded',
 [('src/utils/serializer.rs','''        let mut file = OpenOptions::new()''','''        let history = ctx.search_history.borrow();
        let last_entry = match history.last_entry() {
            Some(last_entry) => last_entry,
            None => return,
        };
        let mut file = OpenOptions::new()'''),
  ('src/utils/serializer.rs','''        if let Some(last_entry) = ctx.search_history.borrow().last_entry() {
            writeln!(file, "{}", last_entry.solution).expect("Failed to write solution to file!");
        }
''','''        writeln!(file, "{}", last_entry.solution).expect("Failed to write solution to file!");
''')],
 r"""
fn main() {
    for found in [true, false] {
        let mut inst = Inst::random(2, 10, 100, 9, 3.0);
        if !found {
            inst.d[1] = inst.cap + 1.0;
        }
        let mut c = cfg(2);
        let out = file("out.sol");
        c.solution_path = Some(out.clone());
        std::fs::write(&out, "Route #1: 1 2 3\nCost 12\n").unwrap();
        let mut s = solver(&inst, c);
        for _ in 0..40 {
            step(&mut s);
        }
        hybridcvrp::utils::write_solution_file(&s.ctx);
        let h = s.ctx.search_history.borrow();
        let want = h.last_entry().map(|e| format!("{}\n", e.solution)).unwrap_or_default();
        let got = std::fs::read_to_string(&out).unwrap();
        if got != want {
            fail(format!("the file holds {:?} instead of {:?}", got, want));
        }
    }
}
""")
plant('C10-unbounded-penalty','C10',
 'an instance whose demands are all zero',
 'the first penalty is not bounded from above, so without demands it is infinite and costs become no numbers',
 [('src/solver/context.rs','            (Some(distance), Some(demand)) => 0.0001f64.max(10_000f64.min(distance / demand)),','            (Some(distance), Some(demand)) => 0.0001f64.max(distance / demand),')],
 r"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for seed in 0..4u64 {
        let mut inst = Inst::random(seed, 10, 100, 9, 3.0);
        inst.d = vec![0.0; 11];
        let ok = std::panic::catch_unwind(|| {
            let mut s = solver(&inst, cfg(seed));
            for _ in 0..150 {
                step(&mut s);
            }
            history(&s.ctx).0.len()
        });
        if ok.as_ref().map_or(true, |&n| n == 0) {
            fail(format!("seed {}: {:?}", seed, ok.is_ok()));
        }
    }
}
""")
plant('C10-no-neighbours','C10',
 'an instance with a single customer',
 'the chance to shuffle the neighbours is drawn over their number, which is zero with a single customer',
 [('src/solver/improvement/local_search.rs','                if self.ctx.random.range_usize(0, self.granularity) == 0 {','                if self.ctx.random.range_usize(0, cor.len()) == 0 {')],
 r"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in [5, 2, 1] {
        let inst = Inst::random(7, n, 100, 9, 3.0);
        let ok = std::panic::catch_unwind(|| {
            let mut s = solver(&inst, cfg(1));
            for _ in 0..60 {
                step(&mut s);
            }
            history(&s.ctx).0.len()
        });
        if ok.as_ref().map_or(true, |&k| k == 0) {
            fail(format!("{} customers: no solution (crash: {})", n, ok.is_err()));
        }
    }
}
""")
plant('C11-split-columns','C11',
 'a tour that needs every vehicle, split with the limited fleet',
 'the table of predecessors is a column short: its last entry lies behind its memory',
 [(G+'split.rs','            predecessors: Matrix::new(num_vehicles + 1, ctx.problem.dim()),','            predecessors: Matrix::new(num_vehicles + 1, ctx.problem.num_customers()),')],
 GUARD + r"""
fn main() {
    for seed in 0..40u64 {
        let inst = Inst::random(seed, 5 + seed as usize % 9, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.linear_split = seed % 2 == 0;
        let ctx = context(&inst, c);
        let all = ctx.config.borrow().num_vehicles as usize;
        {
            let mut split = hybridcvrp::solver::genetic::Split::new(&ctx);
            let mut ind = random_individual(&ctx, &inst, &mut Rng(seed));
            split.run(&ctx, &mut ind, 1);
            split.split_limited_fleet(&ctx, &mut ind, all);
        }
        let hit = HIT.load(std::sync::atomic::Ordering::SeqCst);
        if hit > 0 {
            fail(format!("seed {}: memory behind a block of {} bytes was overwritten", seed, hit));
        }
    }
}
""")
LS = r"""
use hybridcvrp::solver::improvement::LocalSearch;
fn main() {
    // a move whose gain is not real is made again and again
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(60));
        fail("local search does not end".to_string());
    });
    for seed in 0..3000u64 {
        let mut r = Rng(seed);
        let inst = Inst::random(seed, 4 + r.us(0, 12), 60, 9, 3.0);
        let mut c = cfg(seed);
        c.relocate_single = seed % 2 == 0;
        c.relocate_double = false;
        c.relocate_double_reverse = true;
        c.swap_one_with_one = false;
        c.swap_two_with_one = false;
        c.swap_two_with_two = false;
        c.two_opt_intra_reverse = seed % 3 == 0;
        c.two_opt_inter_reverse = false;
        c.two_opt_inter = false;
        c.swap_star = seed % 5 == 0;
        let ctx = context(&inst, c);
        let mut ls = LocalSearch::new(&ctx, 1.0);
        for _ in 0..3 {
            let mut ind = random_individual(&ctx, &inst, &mut r);
            let pen = [0.5, 5.0, 100.0][r.us(0, 3)];
            ctx.config.borrow_mut().penalty_capacity = pen;
            let before = inst.pen_cost(&ind.phenotype, true, pen);
            ls.run(&ctx, &mut ind, 1.0);
            let after = inst.pen_cost(&ind.phenotype, true, pen);
            if after > before + 1e-6 || !inst.complete(&ind.phenotype) {
                fail(format!("seed {}: local search made {} out of {}", seed, after, before));
            }
        }
    }
}
"""
plant('C13-reverse-demand','C13',
 'local search with the reversed double relocation (off by default) and an overload',
 'the reversed double relocation forgets the demand of the second customer, so it can make a solution worse',
 [('src/solver/improvement/moves/relocation.rs','''            + distance_matrix.get(v.number, x.number)
            + distance_matrix.get(x.number, u.number)
            + distance_matrix.get(u.number, y.number);

        let mut overload_one = r1.overload;
        let mut overload_two = r2.overload;

        if r1.index != r2.index {
            let u_demand = nodes[u.number].demand;
            let x_demand = nodes[x.number].demand;
            overload_one += -u_demand - x_demand;
            overload_two += u_demand + x_demand;
''','''            + distance_matrix.get(v.number, x.number)
            + distance_matrix.get(x.number, u.number)
            + distance_matrix.get(u.number, y.number);

        let mut overload_one = r1.overload;
        let mut overload_two = r2.overload;

        if r1.index != r2.index {
            let u_demand = nodes[u.number].demand;
            let x_demand = nodes[x.number].demand;
            overload_one += -u_demand - x_demand;
            overload_two += u_demand;
''')], LS)
plant('C13-stale-penalty','C13',
 'elite education whose penalty changes while its working solution is overloaded',
 'after a change of the penalty the working solution keeps its cost at the old one',
 [(R+'mod.rs','''                    self.solution.reevaluate(self.ctx);
                    self.current_solution.reevaluate(self.ctx);
''','''                    self.current_solution.reevaluate(self.ctx);
''')],
 r"""
fn main() {
    for seed in 0..12u64 {
        let mut inst = Inst::random(seed, 12, 100, 9, 4.0);
        inst.d[1] = inst.cap + 3.0; // always overloaded
        let mut c = cfg(seed);
        c.elite_education_gamma = 300.0;
        let ctx = context(&inst, c);
        let mut rr = hybridcvrp::solver::improvement::RuinRecreate::new(&ctx);
        let mut ind = random_individual(&ctx, &inst, &mut Rng(seed));
        rr.setup_elite_education(&ctx);
        rr.load(&ctx, &mut ind);
        for k in 0..3 {
            rr.search();
            let pen = ctx.config.borrow().penalty_capacity;
            let routes: Vec<Vec<usize>> = rr.solution.routes.iter().map(|r| r.nodes.clone()).collect();
            let want = inst.pen_cost(&routes, true, pen);
            if (rr.solution.cost - want).abs() > 1e-4 * want {
                fail(format!("seed {}, batch {}: cost {} kept for a solution that costs {}", seed, k, rr.solution.cost, want));
            }
        }
    }
}
""")
plant('C14-rare-clock','C14',
 'time-based elite education (off by default) on a clock on which moves are slow',
 'the clock is read once in one hundred thousand moves, so education runs on long after its share is over',
 [(R+'schedule.rs','            update_rate: 100,','            update_rate: 100_000,')],
 r"""
use hybridcvrp::solver::improvement::Acceptance;
fn main() {
    let inst = Inst::random(1, 60, 100, 9, 3.0);
    let mut c = cfg(1);
    c.time_limit = 10;
    c.elite_education_time_based = true;
    c.elite_education_time_fraction = 0.02;
    let ctx = context(&inst, c);
    let mut rr = hybridcvrp::solver::improvement::RuinRecreate::new(&ctx);
    let mut ind = random_individual(&ctx, &inst, &mut Rng(1));
    rr.setup_elite_education(&ctx);
    rr.load(&ctx, &mut ind);
    let t = std::time::Instant::now();
    let mut batches = 0;
    while !rr.acceptance.completed() {
        rr.search();
        if t.elapsed().as_secs_f64() >= 0.2 {
            batches += 1;
        }
    }
    if batches > 4 {
        fail(format!("education ended {} batches of moves and {:?} after its share", batches, t.elapsed()));
    }
}
""")
plant('C16-rounded-dedup','C16',
 'distances that are not rounded and an improvement of less than one',
 'an improvement whose cost line reads as the one before is not printed',
 [('src/solver/history.rs','            if self.log_new_best {','            let last = self.history.last().map(|entry| entry.solution.cost.round());\n            if self.log_new_best && last != Some(history_entry.solution.cost.round()) {')],
 WRITE.replace('seed, 30, 300, 9', 'seed, 30, 12, 9').replace('solver(&inst, cfg(seed))', 'solver(&inst, Config { round_distances: false, ..cfg(seed) })'), 'dimacs')
plant('C18-short-window','C18',
 'a penalty update after more than ninety solutions',
 'the share of feasible solutions is that of the last ninety instead of the last hundred',
 [(G+'population.rs','            feasible_history: vec![true; 100],','            feasible_history: vec![true; 90],')],
 r"""
fn main() {
    for seed in 0..30u64 {
        let inst = Inst::random(seed, 12, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.penalty_update_interval = 1;
        c.feasibility_proportion_target = 0.5;
        c.rr_mutation = false;
        let mut s = solver(&inst, c);
        // what the search added, newest last
        let mut added = vec![true; 100];
        for k in 0..400 {
            let (gens, init) = (s.metaheuristic.iterations, s.metaheuristic.num_initialized);
            let before = s.ctx.config.borrow().penalty_capacity;
            step(&mut s);
            let m = &s.metaheuristic;
            if m.iterations == gens && m.num_initialized == init {
                continue;
            }
            added.push(*m.population.feasible_history.last().unwrap());
            if m.iterations > gens {
                let share = added[added.len() - 100..].iter().filter(|&&f| f).count() as f64 / 100.0;
                let want = before * if share < 0.45 { 1.2 } else if share > 0.55 { 0.85 } else { 1.0 };
                let got = s.ctx.config.borrow().penalty_capacity;
                let edge = (share - 0.45).abs() < 1e-9 || (share - 0.55).abs() < 1e-9;
                if !edge && want > 0.0002 && (got - want).abs() > 1e-9 * want {
                    fail(format!("seed {}, step {}: share {} turns penalty {} into {} instead of {}", seed, k, share, before, got, want));
                }
            }
        }
    }
}
""")
plant('C19-depot-double','C19',
 'a pair of customers that belongs directly behind the depot of another route',
 'pairs of customers are not put in front of the first customer of a route',
 [('src/solver/improvement/moves/mod.rs','''    fn depot_moves(ctx: &Context) -> Vec<Box<dyn Move>> {
        let mut moves: Vec<Box<dyn Move>> = Vec::new();
        if ctx.config.borrow().relocate_single {
            moves.push(Box::new(RelocateSingle));
        }
        if ctx.config.borrow().relocate_double {
            moves.push(Box::new(RelocateDouble));
        }
''','''    fn depot_moves(ctx: &Context) -> Vec<Box<dyn Move>> {
        let mut moves: Vec<Box<dyn Move>> = Vec::new();
        if ctx.config.borrow().relocate_single {
            moves.push(Box::new(RelocateSingle));
        }
''')],
 r"""
use hybridcvrp::solver::improvement::LocalSearch;
fn main() {
    for seed in 0..2000u64 {
        let mut r = Rng(seed);
        let inst = Inst::random(seed, 4 + r.us(0, 8), 60, 9, 3.0);
        let mut c = cfg(seed);
        c.swap_one_with_one = false;
        c.swap_two_with_one = false;
        c.swap_two_with_two = false;
        c.two_opt_intra_reverse = false;
        c.two_opt_inter_reverse = false;
        c.two_opt_inter = false;
        c.swap_star = seed % 2 == 0;
        let ctx = context(&inst, c);
        let pen = ctx.config.borrow().penalty_capacity;
        let mut ls = LocalSearch::new(&ctx, 1.0);
        let mut ind = random_individual(&ctx, &inst, &mut r);
        ls.run(&ctx, &mut ind, 1.0);
        let old = inst.pen_cost(&ind.phenotype, true, pen);
        let routes: Vec<Vec<usize>> = ind.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
        for a in 0..routes.len() {
            for b in 0..routes.len() {
                for i in 0..routes[a].len().saturating_sub(1) {
                    if a == b && i < 2 {
                        continue;
                    }
                    let mut new = routes.clone();
                    let pair: Vec<usize> = new[a].drain(i..i + 2).collect();
                    new[b].splice(0..0, pair);
                    let cost = inst.pen_cost(&new, true, pen);
                    if cost < old - 1e-4 {
                        fail(format!("seed {}: {:?} costs {}, {:?} costs {}", seed, routes, old, new, cost));
                    }
                }
            }
        }
    }
}
""")
plant('C20-limited-capacity','C20',
 'the Bellman split (off by default) of a tour that needs overloaded routes to fit the fleet',
 'with a limited fleet routes up to the capacity are considered instead of up to its multiple',
 [(G+'split.rs','                            <= cap * capacity_factor','                            <= cap')],
 "const LINEAR: Option<bool> = Some(false);\n" + SPLIT)
plant('C21-bad-coordinate','C21',
 'an instance with a coordinate that is no number',
 'a coordinate that is no number is taken for zero',
 [('src/utils/parser.rs','                        lat: line[2].parse::<f64>().expect("Failed to parse coordinate"),','                        lat: line[2].parse::<f64>().unwrap_or_default(),')],
 PARSE + r"""
fn main() {
    let inst = Inst::random(1, 8, 50, 9, 3.0);
    let t = inst.text();
    for (k, w) in [(0, "1 0x1 5"), (1, "1 5 0x1"), (2, "1 5 abc"), (3, "1 abc 5"), (4, "1 5 1,5"), (5, "1 5 7")] {
        let first = format!("1 {} {}", inst.xy[0].0, inst.xy[0].1);
        let r = load(&t.replace(&first, w), "p.vrp");
        if r.is_ok() != (k == 5) {
            fail(format!("{:?} is {}", w, if r.is_ok() { "accepted" } else { "refused" }));
        }
    }
}
""")
