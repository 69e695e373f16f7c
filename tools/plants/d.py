GA = r"""
type S = Solver<GeneticAlgorithm>;
"""
plant('C17-unsorted-after-update','C17',
 'a penalty update that changes the order of the infeasible solutions by cost',
 'the infeasible part of the population is not put in order after its members got new costs',
 [(G+'genetic.rs','''            individual.evaluate(ctx);
        }

        self.population.infeasible.population.sort();
''','''            individual.evaluate(ctx);
        }
''')],
 r"""
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 16, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.repair_probability = 0.0;
        c.penalty_dec_multiplier = 0.5;
        c.rr_mutation = false;
        let mut s = solver(&inst, c);
        for k in 0..300 {
            step(&mut s);
            let p = &s.metaheuristic.population.infeasible.population;
            for w in p.windows(2) {
                if w[0].penalized_cost() > w[1].penalized_cost() + 1e-4 {
                    fail(format!("seed {}, step {}: infeasible members {:?}", seed, k, p.iter().map(|i| i.penalized_cost()).collect::<Vec<_>>()));
                }
            }
        }
    }
}
""")
plant('C17-one-more','C17',
 'a part of the population that is filled up to its limit',
 'a part may hold one member more than its limit before it is cut back',
 [(G+'population.rs','if self.population.len() >= self.max_individuals {','if self.population.len() > self.max_individuals + 1 {')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let inst = Inst::random(seed, 20, 100, 9, 4.0);
        let c = cfg(seed);
        let max = (c.min_population_size + c.population_lambda) as usize;
        let mut s = solver(&inst, c);
        for k in 0..400 {
            step(&mut s);
            let p = &s.metaheuristic.population;
            if p.feasible.size().max(p.infeasible.size()) > max {
                fail(format!("seed {}, step {}: {} + {} members with a limit of {}", seed, k, p.feasible.size(), p.infeasible.size(), max));
            }
        }
    }
}
""")
plant('C17-best-is-clone','C17',
 'a part cut back while its cheapest member has a twin in it',
 'the cheapest member is no longer exempt when members are chosen for removal, and it can go when it is the most common one',
 [(G+'population.rs','        for index in 1..self.population.len() {\n            let is_clone = self.individual_is_clone(&self.population[index]);','        for index in 0..self.population.len() {\n            let is_clone = self.individual_is_clone(&self.population[index]);'),
  (G+'population.rs','                || (worst_is_clone == is_clone && self.population[index].fitness >= worst_fitness);','                || (worst_is_clone == is_clone\n                    && (worst_fitness < 0.0 || self.population[index].fitness > worst_fitness));')],
 r"""
fn main() {
    for seed in 0..300u64 {
        let inst = Inst::random(seed, 4 + (seed % 8) as usize, 60, 9, 3.0);
        let mut c = cfg(seed);
        c.min_population_size = 1 + seed % 3;
        c.population_lambda = 1 + seed % 4;
        c.num_elites = seed % 2;
        c.initial_individuals = 30;
        c.rr_mutation = seed % 2 == 0;
        let mut s = solver(&inst, c);
        let mut best = f64::INFINITY;
        for k in 0..150 {
            step(&mut s);
            let p = &s.metaheuristic.population.feasible.population;
            if s.metaheuristic.iterations == s.metaheuristic.best_iteration && p.is_empty() {
                best = f64::INFINITY;
            }
            let now = p.iter().map(|i| i.penalized_cost()).fold(f64::INFINITY, f64::min);
            if now > best + 1e-4 {
                fail(format!("seed {}, step {}: the cheapest feasible member costs {}, before {}", seed, k, now, best));
            }
            best = now;
        }
    }
}
""")
plant('C18-repaired-counts','C18',
 'an infeasible child that the repair makes feasible',
 'a repaired solution counts in the feasible share as well as the child it was made from, so the share is not that of the last hundred children',
 [(G+'genetic.rs','''                self.update_best(ctx);
                self.population
                    .add_individual(ctx, self.child.clone(), false);
            }
            self.child''','''                self.update_best(ctx);
                self.population
                    .add_individual(ctx, self.child.clone(), true);
            }
            self.child''')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let inst = Inst::random(seed, 20, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.rr_mutation = false;
        c.repair_probability = 1.0;
        let mut s = solver(&inst, c);
        for k in 0..200 {
            let before = s.metaheuristic.population.feasible_history.clone();
            step(&mut s);
            let after = &s.metaheuristic.population.feasible_history;
            // one step adds one solution to the history
            if before[..] != after[..] && before[1..] != after[..99] {
                fail(format!("seed {}: step {} shifts the feasibility history by more than one", seed, k));
            }
        }
    }
}
""")
plant('C18-old-costs','C18',
 'a penalty update with infeasible members in the population',
 'infeasible members keep the costs of the old penalty, only their order is looked at again',
 [(G+'genetic.rs','        for individual in self.population.infeasible.population.iter_mut() {\n            individual.evaluate(ctx);\n        }','        // Only members with an overload that counts have to be evaluated again\n        for individual in self.population.infeasible.population.iter_mut() {\n            if individual.is_feasible() {\n                individual.evaluate(ctx);\n            }\n        }')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let inst = Inst::random(seed, 20, 100, 9, 4.0);
        let mut c = cfg(seed);
        c.rr_mutation = false;
        c.repair_probability = 0.0;
        let mut s = solver(&inst, c);
        let mut last = 0.0;
        for k in 0..300 {
            step(&mut s);
            let pen = s.ctx.config.borrow().penalty_capacity;
            if pen != last {
                for i in s.metaheuristic.population.infeasible.population.iter() {
                    let want = inst.pen_cost(&i.phenotype, true, pen);
                    if (i.penalized_cost() - want).abs() > 1e-3 {
                        fail(format!("seed {}, step {}: a member costs {}, at the penalty in force {}", seed, k, i.penalized_cost(), want));
                    }
                }
            }
            last = pen;
        }
    }
}
""")
plant('C18-education-penalty','C18',
 'elite education that adapted the penalty before it ended',
 'the penalty that elite education ended with stays in force for the genetic search unless it is above the initial one',
 [(G+'genetic.rs','''                    self.rr.setup_mutation(ctx);
                    ctx.reset_penalty();
''','''                    self.rr.setup_mutation(ctx);
                    // Back to the start if education made it harder to leave the feasible region
                    if self.child.is_feasible() {
                        ctx.reset_penalty();
                    }
''')],
 r"""
fn main() {
    for seed in 0..30u64 {
        let mut inst = Inst::random(seed, 20, 100, 9, 4.0);
        if seed % 2 == 0 {
            // no feasible solution
            inst.d[1] = inst.cap + 5.0;
        }
        let mut c = cfg(seed);
        c.elite_education = true;
        c.elite_education_gamma = 300.0;
        let mut s = solver(&inst, c);
        let initial = s.ctx.config.borrow().penalty_capacity;
        let mut moved = false;
        for _ in 0..100 {
            step(&mut s);
            let now = s.ctx.config.borrow().penalty_capacity;
            moved |= now != initial;
            if s.metaheuristic.num_initialized == 1 {
                if now != initial {
                    fail(format!("seed {}: penalty {} after education, initially {}", seed, now, initial));
                }
                break;
            }
        }
        if !moved {
            fail("education does not change the penalty".into());
        }
    }
}
""")
NAIVE = r"""
/// the best cost of a solution after a relocation, swap or 2-opt move of u next to v, in a plain way
fn pos(r: &[Vec<usize>], c: usize) -> (usize, usize) {
    r.iter().enumerate().find_map(|(k, x)| x.iter().position(|&y| y == c).map(|p| (k, p))).unwrap()
}
fn better(inst: &Inst, r: &Vec<Vec<usize>>, u: usize, v: usize, pen: f64) -> Option<f64> {
    let base = inst.pen_cost(r, true, pen);
    let mut best: Option<f64> = None;
    let mut look = |x: Vec<Vec<usize>>| {
        let c = inst.pen_cost(&x, true, pen);
        if c < base - 1e-3 && best.map_or(true, |b| c < b) {
            best = Some(c);
        }
    };
    let (a, i) = pos(r, u);
    // relocation of u behind v
    let mut x = r.clone();
    x[a].remove(i);
    let (b, j) = pos(&x, v);
    x[b].insert(j + 1, u);
    look(x);
    // relocation of u before v, if v is first
    let (b, j) = pos(r, v);
    if j == 0 && a != b {
        let mut x = r.clone();
        x[a].remove(i);
        x[b].insert(0, u);
        look(x);
    }
    // swap, of customers that are not next to each other
    if a != b || (i as i64 - j as i64).abs() > 1 {
        let mut x = r.clone();
        x[a][i] = v;
        x[b][j] = u;
        look(x);
    }
    // tails
    if a != b {
        let mut x = r.clone();
        let (t1, t2) = (x[a].split_off(i + 1), x[b].split_off(j + 1));
        x[a].extend(t2);
        x[b].extend(t1);
        look(x);
    }
    best
}
fn main() {
    let n_cases: u64 = std::env::var("CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(40000);
    for seed in 0..n_cases {
        let mut r = Rng(seed);
        let inst = Inst::random(seed, 6 + (seed % 14) as usize, 100, 9, 2.0 + (seed % 4) as f64);
        let mut c = cfg(seed);
        c.local_search_granularity = 2 + seed % 6;
        c.swap_star = seed % 2 == 0 || SWAP_STAR;
        let gran = c.local_search_granularity as usize;
        let ctx = context(&inst, c);
        let pen = [0.5, 2.0, 50.0][r.us(0, 3)];
        ctx.config.borrow_mut().penalty_capacity = pen;
        let mut ls = hybridcvrp::solver::improvement::LocalSearch::new(&ctx, 1.0);
        for _ in 0..2 {
            let mut ind = random_individual(&ctx, &inst, &mut r);
            ls.run(&ctx, &mut ind, 1.0);
            for u in 1..=inst.n() {
                for &v in ctx.matrix_provider.correlation.top_slice(u, gran) {
                    if let Some(c) = better(&inst, &ind.phenotype, u, v, pen) {
                        fail(format!("seed {}: {} and {} can go from cost {} to {}", seed, u, v, inst.pen_cost(&ind.phenotype, true, pen), c));
                    }
                }
            }
        }
    }
}
"""
plant('C19-empty-route-last','C19',
 'a move to an empty route as the only improvement of a pass',
 'a pass that only moved customers to empty routes counts as one without improvement, so what it opened is not looked at',
 [(I+'local_search.rs','''                            self.move_count += 1;
                            m.perform(self, u, v);
                            improvement = true;
                            break;''','''                            self.move_count += 1;
                            m.perform(self, u, v);
                            break;''')],
 "const SWAP_STAR: bool = true;\n" + NAIVE)
plant('C19-tested-late','C19',
 'a move made while a customer is tested that opens another one for the same customer',
 'a customer counts as tested after its own moves, so what they changed is not looked at again for it',
 [(I+'local_search.rs','''                // Update timestamp for node u
                let last_test_u = (*u).last_tested;
                (*u).last_tested = self.move_count;
''','''                // Timestamp for node u
                let last_test_u = (*u).last_tested;
'''),
 (I+'local_search.rs','''                // Additional moves where node where''','''                (*u).last_tested = self.move_count;

                // Additional moves where node where''')],
 "const SWAP_STAR: bool = true;\n" + NAIVE)
plant('C19-one-side-modified','C19',
 'a neighbour whose route changed since the last test while the own route did not',
 'only changes of the own route make a customer be tested again',
 [(I+'local_search.rs','|| max((*route_u).last_modified, (*route_v).last_modified) > last_test_u','|| (*route_u).last_modified > last_test_u\n                        || ((*route_v).last_modified > last_test_u && (*route_v).is_empty())')],
 "const SWAP_STAR: bool = true;\n" + NAIVE)
SPLIT = r"""
fn best_split(inst: &Inst, tour: &[usize], v: usize, pen: f64, factor: f64) -> f64 {
    let n = tour.len();
    let mut f = vec![vec![f64::INFINITY; n + 1]; v + 1];
    f[0][0] = 0.0;
    for k in 0..v {
        for i in 0..n {
            if f[k][i].is_finite() {
                for j in i + 1..=n {
                    let load = inst.load(&tour[i..j]);
                    if load > inst.cap * factor + 1e-6 {
                        break;
                    }
                    let c = f[k][i] + inst.pen_cost(&[tour[i..j].to_vec()], true, pen);
                    f[k + 1][j] = f[k + 1][j].min(c);
                }
            }
        }
    }
    (0..=v).map(|k| f[k][n]).fold(f64::INFINITY, f64::min)
}
fn main() {
    for seed in 0..4000u64 {
        let mut r = Rng(seed);
        let mut inst = Inst::random(seed, 1 + r.us(0, 14), 100, 9, 2.0 + (seed % 4) as f64);
        if seed % 5 == 0 {
            inst.cap = 3.0 * inst.d.iter().sum::<f64>();
        }
        let mut c = cfg(seed);
        c.linear_split = LINEAR.unwrap_or(seed % 2 == 0);
        c.split_capacity_factor = if c.linear_split { 1e9 } else { 1.5 };
        let factor = c.split_capacity_factor;
        let ctx = context(&inst, c);
        let all = ctx.config.borrow().num_vehicles;
        let mut split = hybridcvrp::solver::genetic::Split::new(&ctx);
        for _ in 0..4 {
            let pen = [0.2, 2.0, 50.0][r.us(0, 3)];
            ctx.config.borrow_mut().penalty_capacity = pen;
            let mut ind = random_individual(&ctx, &inst, &mut r);
            let mut tour: Vec<usize> = (1..=inst.n()).collect();
            r.shuffle(&mut tour);
            ind.genotype = tour.clone();
            let v = (r.us(1, all as usize + 1) as u64).max(ctx.vehicle_lower_bound());
            let want = best_split(&inst, &tour, v as usize, pen, factor);
            if !want.is_finite() {
                continue;
            }
            split.run(&ctx, &mut ind, v);
            let got = inst.pen_cost(&ind.phenotype, true, pen);
            if (got - want).abs() > 1e-3 * (1.0 + want) || !inst.complete(&ind.phenotype) {
                fail(format!("seed {}: split {:?} of {:?} for {} vehicles costs {}, the best {}", seed, ind.phenotype, tour, v, got, want));
            }
        }
    }
}
"""
plant('C20-overload-step','C20',
 'a tour where a route that overlaps the capacity limit dominates one that does not',
 'the linear split drops a start that is dominated only without the overload that lies between, so its cut is not the cheapest',
 [(G+'split.rs','                + self.penalty_capacity * ((self.cum_load[j] - self.cum_load[i]) as f64)','                + self.penalty_capacity\n                    * (0f64.max(self.cum_load[j] - self.cum_load[i] - self.vehicle_cap) as f64)')],
 "const LINEAR: Option<bool> = Some(true);\n" + SPLIT)
plant('C20-first-minimum','C20',
 'a linear split where an older start becomes worse than the one behind it',
 'a start that has become worse than the next stays in front, once the queue is down to two',
 [(G+'split.rs','''                    while queue.len() > 1
                        && (self.propagate(*queue.front(), i + 1, 0)).approx_gte(''','''                    while queue.len() > 2
                        && (self.propagate(*queue.front(), i + 1, 0)).approx_gte(''')],
 "const LINEAR: Option<bool> = Some(true);\n" + SPLIT)
PARSE = r"""
fn load(text: &str, name: &str) -> Result<(Vec<(f64, f64)>, Vec<f64>, f64, Option<Vec<Vec<f64>>>), ()> {
    let p = file(name);
    std::fs::write(&p, text).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    std::panic::catch_unwind(move || {
        let mut c = cfg(1);
        c.instance_path = p;
        let mut parser = ProblemParser::new();
        parser.parse(&mut c);
        let pr = parser.problem.unwrap();
        (pr.nodes.iter().map(|n| (n.coord.lng, n.coord.lat)).collect(), pr.nodes.iter().map(|n| n.demand).collect(), pr.vehicle.cap, parser.matrix)
    })
    .map_err(|_| ())
}
"""
plant('C21-any-euclidean','C21',
 'an instance with three-dimensional or rounded-up Euclidean distances',
 'every edge weight type that begins with EUC is taken for EUC_2D',
 [('src/utils/parser.rs','            "EUC_2D" => Ok(Self::Euclidian2D),','            s if s.starts_with("EUC") => Ok(Self::Euclidian2D),')],
 PARSE + r"""
fn main() {
    let inst = Inst::random(1, 8, 50, 9, 3.0);
    for t in ["EUC_2D", "EUC_3D", "CEIL_2D", "GEO", "MAN_2D"] {
        let r = load(&inst.text().replace("EUC_2D", t), "p.vrp");
        if r.is_ok() != (t == "EUC_2D") {
            fail(format!("{} is {}", t, if r.is_ok() { "accepted" } else { "refused" }));
        }
    }
}
""")
plant('C21-first-value','C21',
 'an explicit instance whose capacity line comes after a comment that repeats the word, or whose capacity is written as a decimal',
 'the capacity is read as a whole number and falls back to what stands before the point',
 [('src/utils/parser.rs','                return line[1].parse::<f64>().expect("Failed to parse capacity");','                let whole = line[1].split(\'.\').next().unwrap_or("");\n                return whole.parse::<u64>().expect("Failed to parse capacity") as f64;')],
 PARSE + r"""
fn main() {
    let mut inst = Inst::random(1, 8, 50, 9, 3.0);
    for cap in [30.0, 30.75, 100.5] {
        inst.cap = cap;
        match load(&inst.text(), "p.vrp") {
            Ok(r) if r.2 == cap => {}
            r => fail(format!("capacity {} reads as {:?}", cap, r.map(|r| r.2))),
        }
    }
}
""")
