STAR = r"""
use hybridcvrp::solver::improvement::LocalSearch;
fn entwined(inst: &Inst, a: &[usize], b: &[usize]) -> bool {
    let angle = |c: usize| (inst.xy[c].1 - inst.xy[0].1).atan2(inst.xy[c].0 - inst.xy[0].0).rem_euclid(2.0 * std::f64::consts::PI);
    let mut p: Vec<(f64, bool)> = a.iter().map(|&c| (angle(c), true)).chain(b.iter().map(|&c| (angle(c), false))).collect();
    p.sort_by(|x, y| x.partial_cmp(y).unwrap());
    p.retain(|x| x.0 > 0.001 && x.0 < 6.282);
    if p.windows(2).any(|w| w[1].0 - w[0].0 < 0.001) {
        return false;
    }
    (0..p.len()).filter(|&i| p[i].1 != p[(i + 1) % p.len()].1).count() >= 4
}
fn put(inst: &Inst, r: &[usize], c: usize) -> Vec<usize> {
    (0..=r.len())
        .map(|i| {
            let mut v = r.to_vec();
            v.insert(i, c);
            v
        })
        .min_by(|x, y| inst.cost(&[x.clone()], false).partial_cmp(&inst.cost(&[y.clone()], false)).unwrap())
        .unwrap()
}
fn main() {
    let mut pairs = 0;
    for seed in 0..SEEDS {
        let mut r = Rng(seed);
        let inst = Inst::random(seed, 6 + r.us(0, 30), 1000, 9, 4.0 + (seed % 9) as f64);
        let mut c = cfg(seed);
        c.round_distances = false;
        let all = ALL.unwrap_or(seed % 2 == 0);
        c.relocate_single = all;
        c.relocate_double = all;
        c.swap_one_with_one = all;
        c.swap_two_with_one = all;
        c.swap_two_with_two = all;
        c.two_opt_intra_reverse = true;
        c.two_opt_inter_reverse = all;
        c.two_opt_inter = all;
        let ctx = context(&inst, c);
        let pen = ctx.config.borrow().penalty_capacity;
        let mut ls = LocalSearch::new(&ctx, 1.0);
        for _ in 0..3 {
            let mut ind = random_individual(&ctx, &inst, &mut r);
            ls.run(&ctx, &mut ind, 1.0);
            let p: Vec<Vec<usize>> = ind.phenotype.iter().filter(|r| r.len() > 1).cloned().collect();
            for i in 0..p.len() {
                for j in i + 1..p.len() {
                    if !entwined(&inst, &p[i], &p[j]) {
                        continue;
                    }
                    pairs += 1;
                    let old = inst.pen_cost(&[p[i].clone(), p[j].clone()], false, pen);
                    for x in 0..p[i].len() {
                        for y in 0..p[j].len() {
                            let (mut a, mut b) = (p[i].clone(), p[j].clone());
                            let (u, v) = (a.remove(x), b.remove(y));
                            let both = [put(&inst, &a, v), put(&inst, &b, u)];
                            let one = [a.clone(), put(&inst, &p[j], u)];
                            let other = [put(&inst, &p[i], v), b.clone()];
                            for n in [&both, &one, &other] {
                                if inst.pen_cost(&n[..], false, pen) < old - 1e-3 {
                                    fail(format!("seed {}: SWAP* of {} and {} improves {:?} {:?} to {:?}", seed, u, v, p[i], p[j], n));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    println!("{} pairs of routes", pairs);
}
"""
plant('C19-third-insert','C19',
 'a customer whose two best places on the other route are both next to the customer it is exchanged with',
 'a place that is second best pushes out the third best instead of becoming it, so good exchanges are not seen',
 [(I+'preprocess.rs','''            self.locations[2] = self.locations[1];
            self.locations[1] = loc;''','''            self.locations[1] = loc;''')],
 "const SEEDS: u64 = 1500;\nconst ALL: Option<bool> = None;\n" + STAR)
plant('C19-sector-one-way','C19',
 'two routes of which the second begins, seen from the depot, before the first and reaches into it',
 'whether two sectors overlap depends on the order of the routes, so half of the overlapping pairs is not looked at',
 [('src/models/circle_sector.rs','''        (other.start - self.start).rem_euclid(MAX_ANGLE)
            <= (self.end - self.start).rem_euclid(MAX_ANGLE)
            || (self.start - other.start).rem_euclid(MAX_ANGLE)
                <= (other.end - other.start).rem_euclid(MAX_ANGLE)
''','''        (other.start - self.start).rem_euclid(MAX_ANGLE)
            <= (self.end - self.start).rem_euclid(MAX_ANGLE)
            || self.is_enclosed(other.end)
''')],
 "const SEEDS: u64 = 1500;\nconst ALL: Option<bool> = None;\n" + STAR)
plant('C19-star-retest','C19',
 'a pair of routes of which only one changed after it was last looked at',
 'two routes are looked at again only if the older of their two timestamps is new',
 [(I+'local_search.rs','''                            && (loop_count == 0 || {
                                (*r1_ptr)
                                    .last_tested_swap_star
                                    .max((*r2_ptr).last_tested_swap_star)
                                    > last_tested_u
                            })''','''                            && (loop_count == 0 || {
                                (*r1_ptr)
                                    .last_tested_swap_star
                                    .min((*r2_ptr).last_tested_swap_star)
                                    > last_tested_u
                            })''')],
 "const SEEDS: u64 = 1500;\nconst ALL: Option<bool> = None;\n" + STAR)
plant('C19-star-penalty','C19',
 'an exchange that moves load between two overloaded routes, or onto a route with room',
 'the filter before an exchange forgets the room that the second route has left',
 [(I+'moves/swap_star.rs','''                let delta_penalty_r2 = 0f64.max(
                    r2.overload + problem.nodes[u.number].demand - problem.nodes[v.number].demand,
                ) * ls.penalty_capacity
                    - 0f64.max(r2.overload) * ls.penalty_capacity;

                // Filter''','''                let delta_penalty_r2 = 0f64.max(
                    r2.overload.max(0.0) + problem.nodes[u.number].demand
                        - problem.nodes[v.number].demand,
                ) * ls.penalty_capacity
                    - 0f64.max(r2.overload) * ls.penalty_capacity;

                // Filter''')],
 "const SEEDS: u64 = 1500;\nconst ALL: Option<bool> = None;\n" + STAR)
plant('C19-empty-once','C19',
 'an improvement by opening a route that shows only after another change in a later pass',
 'empty routes are looked at in the second pass of a local search only',
 [(I+'local_search.rs','if loop_count > 0 && !self.empty_routes.is_empty() {','if loop_count == 1 && !self.empty_routes.is_empty() {')],
 r"""
use hybridcvrp::solver::improvement::LocalSearch;
fn main() {
    for seed in 0..3000u64 {
        let mut r = Rng(seed);
        let inst = Inst::random(seed, 4 + r.us(0, 14), 1000, 9, 3.0 + (seed % 3) as f64);
        let ctx = context(&inst, cfg(seed));
        let pen = ctx.config.borrow().penalty_capacity;
        let mut ls = LocalSearch::new(&ctx, 1.0);
        let mut ind = random_individual(&ctx, &inst, &mut r);
        let sorted = |p: &[Vec<usize>]| {
            let mut v = p.to_vec();
            v.sort();
            v
        };
        let from = sorted(&ind.phenotype);
        ls.run(&ctx, &mut ind, 1.0);
        let p = &ind.phenotype;
        if sorted(p) == from || p.iter().all(|r| !r.is_empty()) {
            continue;
        }
        for a in p.iter().filter(|r| !r.is_empty()) {
            let old = inst.pen_cost(&[a.clone()], true, pen);
            for i in 0..a.len() {
                let mut rest = a.clone();
                let u = rest.remove(i);
                let cut = [a[..i].to_vec(), a[i..].to_vec()];
                for n in [&[rest, vec![u]], &cut] {
                    if inst.pen_cost(&n[..], true, pen) < old - 1e-3 {
                        fail(format!("seed {}: opening a route improves {:?} to {:?}", seed, a, n));
                    }
                }
            }
        }
    }
}
""")
COUNT = r"""
use hybridcvrp::solver::improvement::{LocalSearch, LinkNode, Move, Ruin, Recreate, RuinRecreateSolution};
use std::cell::RefCell;
use std::rc::Rc;
/// what one step of a search did
#[derive(Default)]
pub struct Seen {
    ruins: u64,
    asked: [u64; 2],
    names: Vec<&'static str>,
    string: usize,
    /// (cost before, cost after, taken) of moves whose outcome is known
    moves: Vec<(f64, f64, bool)>,
    routes: Vec<Vec<usize>>,
    last: Option<(Vec<Vec<usize>>, f64, Vec<Vec<usize>>, f64)>,
    inst: Option<Inst>,
    rounded: bool,
}
type S = Rc<RefCell<Seen>>;
struct M(Box<dyn Move>, S);
impl Move for M {
    fn move_name(&self) -> &'static str {
        self.0.move_name()
    }
    unsafe fn delta(&self, ls: &LocalSearch, u: *mut LinkNode, v: *mut LinkNode) -> f64 {
        let mut s = self.1.borrow_mut();
        let f = ls.penalty_capacity / ls.ctx.config.borrow().penalty_capacity;
        s.asked[(f > 5.0) as usize] += 1;
        let n = self.0.move_name();
        if !s.names.contains(&n) {
            s.names.push(n);
        }
        drop(s);
        self.0.delta(ls, u, v)
    }
    unsafe fn perform(&self, ls: &mut LocalSearch, u: *mut LinkNode, v: *mut LinkNode) {
        self.0.perform(ls, u, v)
    }
}
struct A(Box<dyn Ruin>, S);
struct B(Box<dyn Recreate>, S);
fn nodes(x: &RuinRecreateSolution) -> Vec<Vec<usize>> {
    x.routes.iter().map(|r| r.nodes.clone()).collect()
}
impl Ruin for A {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        let now = nodes(x);
        {
            let mut s = self.1.borrow_mut();
            s.ruins += 1;
            if let Some((r0, c0, r1, c1)) = s.last.take() {
                if r0 != r1 {
                    s.moves.push((c0, c1, now == r1));
                }
            }
            s.routes = now.clone();
        }
        self.0.run(ctx, x);
        let mut s = self.1.borrow_mut();
        for (i, r) in now.iter().enumerate() {
            s.string = s.string.max(r.len() - x.routes[i].nodes.len());
        }
    }
}
impl Recreate for B {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        self.0.run(ctx, x);
        let mut s = self.1.borrow_mut();
        let pen = ctx.config.borrow().penalty_capacity;
        let (r0, r1) = (s.routes.clone(), nodes(x));
        let i = s.inst.clone().unwrap();
        let (c0, c1) = (i.pen_cost(&r0, s.rounded, pen), i.pen_cost(&r1, s.rounded, pen));
        s.last = Some((r0, c0, r1, c1));
    }
}
struct N;
impl Ruin for N {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}
impl Recreate for N {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}
/// a solver that is watched
fn watched(inst: &Inst, c: Config) -> (Solver<GeneticAlgorithm>, S) {
    let s: S = Default::default();
    s.borrow_mut().inst = Some(inst.clone());
    s.borrow_mut().rounded = c.round_distances;
    let mut g = solver(inst, c);
    let ga = &mut g.metaheuristic;
    for v in [&mut ga.ls.moves.neighbor, &mut ga.ls.moves.depot, &mut ga.ls.moves.empty_route] {
        let old = std::mem::take(v);
        *v = old.into_iter().map(|m| Box::new(M(m, s.clone())) as Box<dyn Move>).collect();
    }
    let a = std::mem::replace(&mut ga.rr.ruin, Box::new(N));
    ga.rr.ruin = Box::new(A(a, s.clone()));
    let b = std::mem::replace(&mut ga.rr.recreate, Box::new(N));
    ga.rr.recreate = Box::new(B(b, s.clone()));
    (g, s)
}
/// a step of it, counted from zero
fn one(g: &mut Solver<GeneticAlgorithm>, s: &S) {
    {
        let mut s = s.borrow_mut();
        s.ruins = 0;
        s.asked = [0; 2];
        s.last = None;
    }
    step(g);
}
"""
plant('C24-moves-per-node','C24',
 'a factor of moves per customer above one half',
 'the number of ruin-and-recreate moves counts the depot as a customer',
 [(R+'mod.rs','(config.rr_gamma * ctx.problem.num_customers() as f64).round()','(config.rr_gamma * ctx.problem.dim() as f64).round()')],
 COUNT + r"""
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 5 + seed as usize, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.rr_gamma = 3.0;
        let (mut g, s) = watched(&inst, c);
        for _ in 0..30 {
            one(&mut g, &s);
            let r = s.borrow().ruins;
            if r != 0 && r != 3 * inst.n() as u64 {
                fail(format!("{} moves for {} customers", r, inst.n()));
            }
        }
    }
}
""")
plant('C24-education-once','C24',
 'a restart of a search with elite education',
 'elite education takes place only when a search starts, not when it restarts',
 [(G+'genetic.rs','''                if ctx.config.borrow().elite_education
''','''                if (ctx.config.borrow().elite_education && self.best_iteration == 0)
''')],
 COUNT + r"""
fn main() {
    for seed in 0..10u64 {
        let inst = Inst::random(seed, 8, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.rr_mutation = false;
        c.elite_education = true;
        c.elite_education_gamma = 10.0;
        c.max_iterations_without_improvement = 10;
        let (mut g, s) = watched(&inst, c);
        let (mut total, mut epochs, mut last) = (0, 0, 0);
        for _ in 0..200 {
            one(&mut g, &s);
            total += s.borrow().ruins;
            let ni = g.metaheuristic.num_initialized;
            epochs += (ni == 1 && last == 0) as u64;
            last = ni;
        }
        if total != epochs * 80 {
            fail(format!("seed {}: {} moves of education in {} epochs, 80 each", seed, total, epochs));
        }
    }
}
""")
plant('C24-repair-share','C24',
 'a repair probability other than the mutation probability',
 'one random number decides about mutation and repair, so that no individual that was not mutated is repaired',
 [(G+'genetic.rs','if !child.is_feasible() && ctx.random.real() < ctx.config.borrow().repair_probability {','if !child.is_feasible() && rnd < ctx.config.borrow().repair_probability {')],
 COUNT + r"""
fn main() {
    let (mut all, mut both) = (0, 0);
    for seed in 0..40u64 {
        let inst = Inst::random(seed, 12, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.rr_probability = 0.3;
        c.repair_probability = 0.3;
        let (mut g, s) = watched(&inst, c);
        for _ in 0..150 {
            one(&mut g, &s);
            let s = s.borrow();
            if s.asked[1] > 0 {
                all += 1;
                both += (s.ruins > 0) as u64;
            }
        }
    }
    println!("{} repaired, {} of them mutated", all, both);
    if all > 100 && both * 2 > all {
        fail(format!("of {} repaired individuals {} had been mutated, with probability 0.3", all, both));
    }
}
""")
plant('C24-cold-start','C24',
 'a second mutation with the same schedule',
 'a schedule starts again at the temperature it had cooled down to, until its first move is made',
 [(R+'schedule.rs','''        self.iteration = 0;
        self.temp = self.start_temp;''','''        self.iteration = 0;''')],
 COUNT + r"""
fn main() {
    let (mut worse, mut taken) = (0, 0);
    for seed in 0..40u64 {
        let inst = Inst::random(seed, 8, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.rr_start_temp = 1e6;
        let (mut g, s) = watched(&inst, c);
        for _ in 0..60 {
            s.borrow_mut().moves.clear();
            one(&mut g, &s);
            if g.metaheuristic.num_initialized < 2 {
                continue;
            }
            let s = s.borrow();
            if s.ruins > 0 {
                if let Some(m) = s.moves.first().filter(|m| m.1 > m.0 + 1e-3) {
                    worse += 1;
                    taken += m.2 as u64;
                }
            }
        }
    }
    println!("{} first results were worse, {} of them taken", worse, taken);
    if worse > 30 && taken * 10 < worse * 9 {
        fail(format!("of {} worse first results {} were taken at a million degrees", worse, taken));
    }
}
""")
plant('C24-from-best','C24',
 'a result that is better than the solution it was made from, but not than the best one',
 'a result is compared with the best solution so far instead of with the one it was made from',
 [(R+'mod.rs','            let cost_before = self.current_solution.cost;','            let cost_before = self.best_cost();')],
 COUNT + r"""
fn main() {
    for seed in 0..60u64 {
        let inst = Inst::random(seed, 20, 1000, 9, 4.0);
        let mut c = cfg(seed);
        c.rr_start_temp = 100.0;
        let (mut g, s) = watched(&inst, c);
        for _ in 0..60 {
            s.borrow_mut().moves.clear();
            one(&mut g, &s);
            if let Some(m) = s.borrow().moves.iter().find(|m| m.1 < m.0 - 1e-3 && !m.2) {
                fail(format!("seed {}: from {} to {} was not accepted", seed, m.0, m.1));
            }
        }
    }
}
""")
plant('C24-long-strings','C24',
 'routes that are longer than the longest string allowed',
 'strings are limited by the mean length of the routes that have customers only, not by the setting',
 [(R+'ruin.rs','            let ltmax = lsmax.min(solution.routes[neighbor_route].nodes.len() as f64);','''            let ltmax = self
                .average_tour_cardinality(solution)
                .min(solution.routes[neighbor_route].nodes.len() as f64);''')],
 COUNT + r"""
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 24, 100, 9, 8.0);
        let mut c = cfg(seed);
        c.max_ruin_string_length = 3;
        let (mut g, s) = watched(&inst, c);
        for _ in 0..30 {
            one(&mut g, &s);
            if s.borrow().string > 3 {
                fail(format!("seed {}: a string of {} was removed", seed, s.borrow().string));
            }
        }
    }
}
""")
plant('C24-empty-ignores-switch','C24',
 'pairs are not to be moved in reverse, and there is an empty route',
 'moves into empty routes include reversed pairs whenever plain pairs are on',
 [(I+'moves/mod.rs','''        if ctx.config.borrow().relocate_double_reverse {
            moves.push(Box::new(RelocateDoubleReverse));
        }
        if ctx.config.borrow().two_opt_inter {
            moves.push(Box::new(TwoOptInter));
        }
        moves
    }
}''','''        if ctx.config.borrow().relocate_double || ctx.config.borrow().relocate_double_reverse {
            moves.push(Box::new(RelocateDoubleReverse));
        }
        if ctx.config.borrow().two_opt_inter {
            moves.push(Box::new(TwoOptInter));
        }
        moves
    }
}''')],
 COUNT + r"""
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 12, 100, 9, 3.0);
        let (mut g, s) = watched(&inst, cfg(seed));
        for _ in 0..30 {
            one(&mut g, &s);
            if s.borrow().names.contains(&"RelocateDoubleReverse") {
                fail(format!("seed {}: reversed pairs are moved though they are off", seed));
            }
        }
    }
}
""")
