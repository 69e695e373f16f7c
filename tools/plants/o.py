plant('C25-saturated','C25',
 'solutions of more than 255 customers that differ in more than 255 links',
 'the distance of two solutions stops at 255, so in large instances all of them are equally far from each other',
 [(G+'individual.rs',"        distance\n    }\n\n    pub fn sort_routes","        // One byte is plenty to tell solutions apart\n        distance.min(u8::MAX as i64)\n    }\n\n    pub fn sort_routes")],
 r"""
fn links(routes: &[Vec<usize>], n: usize) -> (Vec<usize>, Vec<usize>) {
    let (mut p, mut s) = (vec![0; n + 1], vec![0; n + 1]);
    for q in routes {
        let mut last = 0;
        for &c in q {
            p[c] = last;
            s[last] = c;
            last = c;
        }
        s[last] = 0;
    }
    (p, s)
}
fn main() {
    for (seed, n) in [(1u64, 20usize), (2, 100), (3, 250), (4, 300), (5, 400)] {
        let inst = Inst::random(seed, n, 1000, 9, 8.0);
        let ctx = context(&inst, cfg(seed));
        let mut r = Rng(seed);
        let a = random_individual(&ctx, &inst, &mut r);
        let b = random_individual(&ctx, &inst, &mut r);
        let ((p1, s1), (p2, s2)) = (links(&a.phenotype, n), links(&b.phenotype, n));
        let mut want = 0;
        for c in 1..=n {
            want += (s1[c] != s2[c] && s1[c] != p2[c]) as i64;
            want += (p1[c] == 0 && p2[c] != 0 && s2[c] != 0) as i64;
        }
        let got = a.calculate_broken_pairs_distance(&b);
        if got != want {
            fail(format!("{} customers: distance {} instead of {}", n, got, want));
        }
    }
}
""")
plant('C26-route-mask','C26',
 'solutions with more than 64 routes',
 'the routes a ruin has touched are kept as bits of a number, so that others are taken for touched, too',
 [(R+'recreate.rs',"        let mut updated_routes = solution.ruined_routes.clone();","        let mut updated_routes = solution.ruined_routes.clone();\n        let touched = updated_routes.iter().fold(0u64, |m, r| m | 1 << (r % 64));"),
  (R+'recreate.rs',"            for &route_number in updated_routes.iter() {","            let more = (0..solution.routes.len())\n                .filter(|r| touched >> (r % 64) & 1 == 1 && !updated_routes.contains(r))\n                .collect::<Vec<usize>>();\n            for &route_number in updated_routes.iter().chain(more.iter()) {")],
 r"""
use hybridcvrp::solver::improvement::{Recreate, RuinRecreate, RuinRecreateSolution};
struct Watch(Box<dyn Recreate>);
fn nodes(x: &RuinRecreateSolution) -> Vec<Vec<usize>> {
    x.routes.iter().map(|r| r.nodes.clone()).collect()
}
impl Recreate for Watch {
    fn run(&self, ctx: &Context, x: &mut RuinRecreateSolution) {
        let before = nodes(x);
        let gone = x.unassigned.clone();
        let ruined: Vec<usize> = x.ruined_routes.iter().copied().collect();
        self.0.run(ctx, x);
        // a single customer has room where it comes from
        if gone.len() == 1 && ruined.len() == 1 {
            let load: f64 = before[ruined[0]].iter().map(|c| ctx.problem.nodes[*c].demand).sum::<f64>() + ctx.problem.nodes[gone[0]].demand;
            if load <= ctx.problem.vehicle.cap {
                for (i, (a, b)) in before.iter().zip(nodes(x)).enumerate() {
                    if *a != b && i != ruined[0] {
                        fail(format!("customer {} of route {} went to route {}, which no ruin had touched", gone[0], ruined[0], i));
                    }
                }
            }
        }
    }
}
struct Nothing;
impl Recreate for Nothing {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}
fn main() {
    for (seed, n, per) in [(1u64, 40usize, 3.0), (2, 300, 2.5), (3, 400, 3.0), (4, 260, 2.0)] {
        let inst = Inst::random(seed, n, 1000, 3, per);
        let mut c = cfg(seed);
        c.average_ruin_cardinality = 1;
        c.max_ruin_string_length = 1;
        c.rr_start_temp = 100.0;
        let ctx = context(&inst, c);
        let mut rr = RuinRecreate::new(&ctx);
        let old = std::mem::replace(&mut rr.recreate, Box::new(Nothing));
        rr.recreate = Box::new(Watch(old));
        let mut r = Rng(seed);
        let mut ind = random_individual(&ctx, &inst, &mut r);
        let all: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
        // as many customers on each route
        let m = ind.phenotype.len();
        for (i, q) in ind.phenotype.iter_mut().enumerate() {
            *q = all[n * i / m..n * (i + 1) / m].to_vec();
        }
        ind.genotype = all;
        ind.evaluate(&ctx);
        rr.load(&ctx, &mut ind);
        for _ in 0..3000 {
            rr.search();
        }
    }
}
""")
plant('C20-short-queue','C20',
 'a split with long routes, in which more than eight starts of a route are worth to be kept',
 'the queue of the linear split is cut to eight places, and the best start of a route may be lost with the rest',
 [(G+'split.rs',"                    while queue.len() > 1\n                        && (self.propagate(*queue.front(), i + 1, 0)).approx_gte(self.propagate(\n                            queue.next_front(),\n                            i + 1,\n                            0,\n                        ))\n                    {","                    while queue.len() > 8\n                        || queue.len() > 1\n                            && (self.propagate(*queue.front(), i + 1, 0)).approx_gte(\n                                self.propagate(queue.next_front(), i + 1, 0),\n                            )\n                    {")],
 r"""
use hybridcvrp::solver::genetic::{Individual, Split};
fn main() {
    for (seed, n, per) in [(1u64, 30usize, 5.0), (2, 120, 40.0), (3, 200, 60.0), (4, 250, 80.0), (5, 300, 100.0)] {
        let inst = Inst::random(seed, n, 1000, 9, per);
        let mut c = cfg(seed);
        c.linear_split = true;
        let ctx = context(&inst, c);
        let mut sp = Split::new(&ctx);
        for k in 0..30u64 {
            let mut ind = Individual::new_random(&ctx, k);
            // every other tour goes around the depot
            if k % 2 == 0 {
                let p = &ctx.problem.nodes;
                let angle = |i: usize| (p[i].coord.lat - p[0].coord.lat).atan2(p[i].coord.lng - p[0].coord.lng);
                ind.genotype.sort_by(|a, b| angle(*a).partial_cmp(&angle(*b)).unwrap());
            }
            let t = ind.genotype.clone();
            let m = ctx.config.borrow().num_vehicles;
            let pen = ctx.config.borrow().penalty_capacity;
            sp.run(&ctx, &mut ind, m);
            // least cost with any number of routes
            let rounded = ctx.config.borrow().round_distances;
            let mut best = vec![f64::INFINITY; n + 1];
            best[0] = 0.0;
            for i in 0..n {
                let (mut load, mut len) = (0.0, 0.0);
                for j in i..n {
                    load += inst.d[t[j]];
                    len += if j == i { inst.dist(0, t[j], rounded) } else { inst.dist(t[j - 1], t[j], rounded) };
                    let c = best[i] + len + inst.dist(t[j], 0, rounded) + pen * (load - inst.cap).max(0.0);
                    if c < best[j + 1] {
                        best[j + 1] = c;
                    }
                }
            }
            let used = ind.phenotype.iter().filter(|q| !q.is_empty()).count() as u64;
            let got = inst.pen_cost(&ind.phenotype, rounded, pen);
            if used < m && got > best[n] + 1e-6 * best[n] + 1e-3 {
                fail(format!("seed {} tour {}: split costs {} where {} is possible", seed, k, got, best[n]));
            }
        }
    }
}
""")
