# Plants for C25 (selection, crossover, survival)
POP = r"""
fn links(x: &Individual) -> (Vec<usize>, Vec<usize>) {
    let n = x.genotype.len();
    let (mut s, mut p) = (vec![0; n + 1], vec![0; n + 1]);
    for r in &x.phenotype {
        for w in r.windows(2) {
            s[w[0]] = w[1];
            p[w[1]] = w[0];
        }
    }
    (s, p)
}
fn broken(a: &Individual, b: &Individual) -> i64 {
    let (a, b) = if a.number < b.number { (a, b) } else { (b, a) };
    let ((s, p), (t, q)) = (links(a), links(b));
    (1..s.len()).map(|c| (s[c] != t[c] && s[c] != q[c]) as i64 + (p[c] == 0 && q[c] != 0 && t[c] != 0) as i64).sum()
}
/// the bounds of each member's fitness, over the orders of equally distant members
fn bounds(p: &[Individual], elites: usize, closest: usize) -> Vec<(f64, f64)> {
    let n = p.len();
    if n < 2 {
        return vec![(0.0, 0.0); n];
    }
    let m = closest.min(n - 1);
    let near: Vec<i64> = (0..n)
        .map(|i| {
            let mut v: Vec<i64> = (0..n).filter(|&j| j != i).map(|j| broken(&p[i], &p[j])).collect();
            v.sort();
            v[..m].iter().sum()
        })
        .collect();
    let f = (n - 1) as f64;
    (0..n)
        .map(|i| {
            let w = if n <= elites { 0.0 } else { 1.0 - elites as f64 / n as f64 };
            let lo = near.iter().filter(|&&x| x > near[i]).count() as f64;
            let hi = near.iter().filter(|&&x| x >= near[i]).count() as f64 - 1.0;
            (i as f64 / f + w * lo / f, i as f64 / f + w * hi / f)
        })
        .collect()
}
fn judge(p: &[Individual], elites: usize, closest: usize, what: &str) {
    for (x, (lo, hi)) in p.iter().zip(bounds(p, elites, closest)) {
        if x.fitness < lo - 1e-9 || x.fitness > hi + 1e-9 {
            fail(format!("{}: a member of {} has fitness {} instead of {} to {}", what, p.len(), x.fitness, lo, hi));
        }
    }
}
fn search(seed: u64, elites: u64, ls: bool, cap: f64) -> Solver<GeneticAlgorithm> {
    let inst = Inst::random(seed, 14, 100, 9, cap);
    let mut c = cfg(seed);
    c.min_population_size = 6;
    c.population_lambda = 5;
    c.initial_individuals = 8;
    c.num_elites = elites;
    c.num_diversity_closest = 3;
    c.ls_enabled = ls;
    c.rr_mutation = false;
    c.repair_probability = 0.0;
    solver(&inst, c)
}
"""
FIT = r"""
fn main() {
    for seed in 0..30u64 {
        let elites = 1 + seed % 3;
        let mut s = search(seed, elites, seed % 2 == 0, 4.0);
        for i in 0..120 {
            step(&mut s);
            for p in [&s.metaheuristic.population.feasible, &s.metaheuristic.population.infeasible] {
                judge(&p.population, elites as usize, 3, &format!("seed {} step {}", seed, i));
            }
        }
    }
}
"""
PO = G + 'population.rs'
plant('C25-swap-remove','C25',
 'a member left, and the nearest members of another one are asked for afterwards',
 'the distances to a member that leaves are removed by moving the last one to their place: the lists are no longer sorted, and the nearest members are not the first',
 [(PO,'                    diversity_vec.remove(index);','                    // order does not matter to the others\n                    diversity_vec.swap_remove(index);')],
 POP + FIT)
plant('C25-late-ranks','C25',
 'a generation that ends with several members leaving at once',
 'while a part shrinks, ranks are renewed only once at the end: who leaves is decided by ranks among members that are gone',
 [(PO,'''        // Remove the diversity between the individual and the rest of the population
        self.remove_diversity(&individual);

        // Update the relative fitness in the population
        self.update_fitness(ctx);''','''        // Remove the diversity between the individual and the rest of the population
        self.remove_diversity(&individual);

        // Update the relative fitness in the population, once all have gone
        if self.population.len() <= ctx.config.borrow().min_population_size as usize {
            self.update_fitness(ctx);
        }''')],
 POP + r"""
fn main() {
    for seed in 0..60u64 {
        let elites = (1 + seed % 3) as usize;
        let inst = Inst::random(seed, 14, 100, 9, if seed % 2 == 0 { 14.0 } else { 4.0 });
        let mut c = cfg(seed);
        c.min_population_size = 2;
        c.population_lambda = 3;
        c.num_elites = elites as u64;
        c.num_diversity_closest = 3;
        c.round_distances = false;
        c.ls_enabled = seed % 3 == 0;
        c.rr_mutation = false;
        c.repair_probability = 0.0;
        let mut s = solver(&inst, c);
        for i in 0..200 {
            let before: Vec<Individual> = s.metaheuristic.population.feasible.population.clone();
            let count = s.metaheuristic.population.total_individuals_count;
            step(&mut s);
            let after: Vec<u64> = s.metaheuristic.population.feasible.population.iter().map(|x| x.number).collect();
            let c = s.metaheuristic.child.clone();
            if s.metaheuristic.population.total_individuals_count != count + 1 || before.len() != 4 || after.len() != 2 || s.ctx.iteration.borrow().clone() == 0 {
                continue;
            }
            let mut child = c;
            child.number = count;
            if before.iter().any(|x| (x.penalized_cost() - child.penalized_cost()).abs() < 1e-3) {
                continue;
            }
            let mut v = before.clone();
            v.push(child);
            v.sort_by(|a, b| a.penalized_cost().partial_cmp(&b.penalized_cost()).unwrap());
            // follow every choice equal distances leave
            let mut sets = vec![v];
            for _ in 0..3 {
                let mut next: Vec<Vec<Individual>> = vec![];
                for v in &sets {
                    let b = bounds(v, elites, 3);
                    let top = b.iter().skip(1).map(|x| x.0).fold(-1.0, f64::max);
                    for k in 1..v.len() {
                        if b[k].1 >= top - 1e-9 {
                            let mut w = v.clone();
                            w.remove(k);
                            let id: Vec<u64> = w.iter().map(|x| x.number).collect();
                            if !next.iter().any(|o| o.iter().map(|x| x.number).collect::<Vec<u64>>() == id) {
                                next.push(w);
                            }
                        }
                    }
                }
                sets = next;
            }
            let got = { let mut a = after.clone(); a.sort(); a };
            let ok = sets.iter().any(|v| { let mut a: Vec<u64> = v.iter().map(|x| x.number).collect(); a.sort(); a == got });
            if !ok {
                fail(format!("seed {} step {}: members {:?} are left", seed, i, after));
            }
        }
    }
}
""")
plant('C25-elite-share','C25',
 'a part of the population that is not just short of its largest size',
 'the weight of the distance rank is taken from the largest size instead of the size there is',
 [(PO,'        let elite_factor = 1.0 - num_elites as f64 / self.population.len() as f64;','        let elite_factor = 1.0 - num_elites as f64 / self.max_individuals as f64;')],
 POP + FIT)
plant('C25-new-worst','C25',
 'a new member that is the most expensive of its part, and far from or near to others',
 'ranks are not renewed when the new member is the most expensive one, as if distances did not count',
 [(PO,'''            // Update the relative fitness in the population
            self.update_fitness(ctx);
        }''','''            // Update the relative fitness in the population. A new last one leaves the others alone
            if insert_index + 1 < self.population.len() || insert_index < 2 {
                self.update_fitness(ctx);
            } else {
                self.population[insert_index].fitness = 2.0;
            }
        }''')],
 POP + FIT)
plant('C25-one-way','C25',
 'solutions that drive a route in opposite directions',
 'a link driven the other way counts as broken',
 [(G+'individual.rs','''                && self.successor(index) != other.predecessor(index)
            {''','''                && (self.successor(index) != other.predecessor(index) || self.successor(index) != 0)
            {''')],
 POP + FIT)
plant('C25-feasible-parents','C25',
 'both parts have members',
 'tournaments with several contestants draw the last one from the feasible members only',
 [(PO,'''            .map(|_| ctx.random.range_usize(lower, self.size()))''','''            .map(|contestant| {
                // One of them should be feasible
                let upper = if contestant + 1 == num_contestants && num_contestants > 1 {
                    self.feasible.size().max(1)
                } else {
                    self.size()
                };
                ctx.random.range_usize(lower, upper)
            })''')],
 POP + r"""
fn main() {
    let mut judged = 0;
    for seed in 0..40u64 {
        let mut s = search(seed, 1, true, 2.3);
        for _ in 0..80 {
            step(&mut s);
        }
        let p = &s.metaheuristic.population;
        let all: Vec<&Individual> = p.feasible.population.iter().chain(p.infeasible.population.iter()).collect();
        if p.feasible.size() == 0 || p.infeasible.size() < 3 {
            continue;
        }
        judged += 1;
        let n = all.len() as f64;
        let k = s.ctx.config.borrow().tournament_size as i32;
        // chance that the winner is infeasible
        let mut want = 0.0;
        for x in &p.infeasible.population {
            let ge = all.iter().filter(|y| y.fitness >= x.fitness).count() as f64;
            let gt = all.iter().filter(|y| y.fitness > x.fitness).count() as f64;
            want += ((ge / n).powi(k) - (gt / n).powi(k)) / (ge - gt);
        }
        let times = 20000;
        let seen = (0..times).filter(|_| !p.get_parent(&s.ctx).is_feasible()).count() as f64 / times as f64;
        if (seen - want).abs() > 0.03 {
            fail(format!("seed {}: an infeasible member wins {} of the tournaments instead of {}", seed, seen, want));
        }
    }
    if judged == 0 {
        fail("nothing judged".to_string());
    }
}
""")
plant('C25-seconds-routes','C25',
 'parents with different numbers of routes',
 'a child may have as many routes as the parent with more of them, not as its first',
 [(G+'genetic.rs','                let max_routes = parent_one.num_nonempty_routes();','                let max_routes = parent_one\n                    .num_nonempty_routes()\n                    .max(parent_two.num_nonempty_routes());')],
 POP + r"""
fn crossed(c: &[usize], a: &[usize], b: &[usize]) -> bool {
    let n = c.len();
    for s in 0..n {
        for len in 2..=n {
            let zone: Vec<usize> = (0..len).map(|k| (s + k) % n).collect();
            if zone.iter().any(|&k| c[k] != a[k]) {
                break;
            }
            let mut at = (s + len) % n;
            let mut ok = true;
            for g in b.iter().filter(|g| !zone.iter().any(|&k| a[k] == **g)) {
                ok &= c[at] == *g;
                at = (at + 1) % n;
            }
            if ok {
                return true;
            }
        }
    }
    false
}
fn orders(m: usize) -> Vec<Vec<usize>> {
    if m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for v in orders(m - 1) {
        for p in 0..=v.len() {
            let mut w = v.clone();
            w.insert(p, m - 1);
            out.push(w);
        }
    }
    out
}
fn main() {
    for seed in 0..200u64 {
        // far customers around the depot: every extra route costs little
        let mut inst = Inst::random(seed, 10, 100, 9, 2.5);
        inst.xy[0] = (50.0, 50.0);
        let mut c = cfg(seed);
        c.ls_enabled = false;
        c.rr_mutation = false;
        c.initial_individuals = 8;
        c.min_population_size = 8;
        c.population_lambda = 8;
        let mut s = solver(&inst, c);
        let lower = s.ctx.vehicle_lower_bound() as usize;
        for i in 0..60 {
            let all: Vec<Individual> = s.metaheuristic.population.feasible.population.iter().chain(s.metaheuristic.population.infeasible.population.iter()).cloned().collect();
            let it = s.ctx.iteration.borrow().clone();
            step(&mut s);
            if s.ctx.iteration.borrow().clone() == it {
                continue;
            }
            let routes: Vec<Vec<usize>> = s.metaheuristic.child.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
            if routes.len() > 5 {
                continue;
            }
            let mut ok = false;
            for o in orders(routes.len()) {
                let c: Vec<usize> = o.iter().flat_map(|&k| routes[k].clone()).collect();
                for a in all.iter().filter(|a| routes.len() <= a.num_nonempty_routes().max(lower)) {
                    ok = ok || all.iter().any(|b| crossed(&c, &a.genotype, &b.genotype));
                }
            }
            if !ok {
                fail(format!("seed {} step {}: {:?} has more routes than any first parent it can be from", seed, i, routes));
            }
        }
    }
}
""")
plant('C25-same-start','C25',
 'a crossover zone that reaches over the end of the tour',
 'the genes of the second parent are put from the front when the zone wraps, not behind its end',
 [(G+'genetic.rs','''        // Add genes from parent_two until all genes have been added
        for &parent_two_gene in parent_two.genotype.iter() {''','''        // Add genes from parent_two until all genes have been added, from where the zone has ended
        let offset = if end < start { index } else { 0 };
        for &parent_two_gene in parent_two
            .genotype
            .iter()
            .cycle()
            .skip(offset)
            .take(parent_two.genotype.len())
        {''')],
 POP + r"""
fn main() {
    // one route: the child shows its whole tour
    let mut odd = 0;
    for seed in 0..60u64 {
        let mut inst = Inst::random(seed, 12, 100, 9, 4.0);
        inst.cap = 1000.0;
        let mut c = cfg(seed);
        c.ls_enabled = false;
        c.rr_mutation = false;
        c.initial_individuals = 5;
        let mut s = solver(&inst, c);
        for _ in 0..60 {
            let all: Vec<Vec<usize>> = s.metaheuristic.population.feasible.population.iter().map(|x| x.genotype.clone()).collect();
            let it = s.ctx.iteration.borrow().clone();
            step(&mut s);
            let r: Vec<Vec<usize>> = s.metaheuristic.child.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
            if s.ctx.iteration.borrow().clone() == it || r.len() != 1 {
                continue;
            }
            let c = &r[0];
            let n = c.len();
            let mut ok = false;
            for a in &all {
                for b in &all {
                    for s in 0..n {
                        for len in 2..=n {
                            if (0..len).any(|k| c[(s + k) % n] != a[(s + k) % n]) {
                                break;
                            }
                            let zone: Vec<usize> = (0..len).map(|k| c[(s + k) % n]).collect();
                            let rest: Vec<usize> = (len..n).map(|k| c[(s + k) % n]).collect();
                            let want: Vec<usize> = b.iter().copied().filter(|g| !zone.contains(g)).collect();
                            ok |= rest == want;
                        }
                    }
                }
            }
            odd += !ok as u32;
        }
    }
    if odd > 0 {
        fail(format!("{} children are no crossover of two members", odd));
    }
}
""")
