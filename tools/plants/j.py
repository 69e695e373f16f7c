RR1 = r"""
use hybridcvrp::solver::improvement::{AdjacentStringRemoval, GreedyBlink, Recreate, Ruin, RuinRecreateSolution};

fn nodes(x: &RuinRecreateSolution) -> Vec<Vec<usize>> {
    x.routes.iter().map(|r| r.nodes.clone()).collect()
}
/// these customers on these routes, the others of the fleet empty
fn solution(ctx: &Context, routes: &[Vec<usize>]) -> RuinRecreateSolution {
    let mut ind = Individual::new_random(ctx, 0);
    for r in ind.phenotype.iter_mut() {
        r.clear();
    }
    for (i, r) in routes.iter().enumerate() {
        ind.phenotype[i] = r.clone();
    }
    ind.genotype = ind.phenotype.iter().flatten().copied().collect();
    ind.evaluate(ctx);
    let mut x = RuinRecreateSolution::new(ctx);
    x.load(&ind);
    let all: Vec<usize> = (0..x.routes.len()).collect();
    x.evaluate(ctx, all.iter());
    x
}
/// positions of what a ruin of route i took
fn taken(old: &[usize], new: &[usize]) -> Vec<usize> {
    (0..old.len()).filter(|&k| !new.contains(&old[k])).collect()
}
"""
plant('C26-order-nearest','C26',
 'many recreates: the missing order is one of eleven',
 'customers are never put back in the order of their distance from the depot, nearest first',
 [(R+'recreate.rs','''        } else if number < 10 {
            sort_farthest_away_from_depot(ctx, solution);
        } else if number < 11 {
            sort_closest_to_depot(ctx, solution);
        } else {
            unreachable!()
        }''','''        } else if number <= 10 {
            sort_farthest_away_from_depot(ctx, solution);
        } else {
            sort_closest_to_depot(ctx, solution);
        }''')],
 RR1 + r"""
fn main() {
    let mut inst = Inst::random(5, 7, 100, 9, 3.0);
    for k in 0..=7 {
        inst.xy[k] = (k as f64 * 10.0, 0.0);
    }
    let ctx = context(&inst, cfg(3));
    let mut x = solution(&ctx, &[]);
    let g = GreedyBlink::default();
    let (mut far, mut near) = (0, 0);
    for _ in 0..2200 {
        x.unassigned = vec![4, 2, 7, 1, 6, 3, 5];
        g.sort_unassigned(&ctx, &mut x);
        far += (x.unassigned == vec![7, 6, 5, 4, 3, 2, 1]) as u32;
        near += (x.unassigned == vec![1, 2, 3, 4, 5, 6, 7]) as u32;
    }
    if near < 120 || near > 290 || far < 300 || far > 500 {
        fail(format!("of 2200 orders {} are nearest first, {} farthest first", near, far));
    }
}
""")
plant('C26-first-choice','C26',
 'a recreate where nothing fits for one customer, and a later one that costs least next to it',
 'a route that got a customer for lack of room elsewhere is none of those the next customers may go to',
 [(R+'recreate.rs','            for &route_number in updated_routes.iter() {','            for &route_number in solution.ruined_routes.iter() {')],
 RR1 + r"""
fn main() {
    // 1 fits into no ruined route and goes to the empty one far away; 2 lies next to it and fits there
    let inst = Inst {
        xy: vec![(0.0, 0.0), (100.0, 0.0), (101.0, 0.0), (0.0, 50.0), (0.0, 52.0)],
        d: vec![0.0, 6.0, 1.0, 8.0, 1.0],
        cap: 10.0,
        lower: None,
    };
    let ctx = context(&inst, cfg(1));
    for k in 0..300 {
        // route 0 lost customer 2; customers 1 and 2 are to be put back
        let mut x = solution(&ctx, &[vec![3, 2, 4], vec![1]]);
        ctx.config.borrow_mut().penalty_capacity = 1000.0;
        x.routes[0].remove(1, &ctx);
        x.routes[1].remove(0, &ctx);
        x.unassigned = vec![1, 2];
        x.ruined_routes.insert(0);
        GreedyBlink::default().run(&ctx, &mut x);
        let r = nodes(&x);
        let with1: &Vec<usize> = r.iter().find(|r| r.contains(&1)).unwrap();
        // 2 first goes to 3 and 4, 1 first takes 2 along
        let first2 = r[0].contains(&2);
        if !first2 && !with1.contains(&2) {
            fail(format!("run {}: {:?}", k, r));
        }
        if k == 299 {
            let mut together = 0;
            for _ in 0..400 {
                let mut x = solution(&ctx, &[vec![3, 2, 4], vec![1]]);
                x.routes[0].remove(1, &ctx);
                x.routes[1].remove(0, &ctx);
                x.unassigned = vec![1, 2];
                x.ruined_routes.insert(0);
                GreedyBlink::default().run(&ctx, &mut x);
                together += nodes(&x).iter().any(|r| r.contains(&1) && r.contains(&2)) as u32;
            }
            if together == 0 {
                fail("in no order are the neighbours put together".into());
            }
        }
    }
}
""")
plant('C26-last-seed','C26',
 'ruins of short routes, many of them',
 'the last customer is never the one a ruin starts from',
 [(R+'ruin.rs','ctx.random.range_usize(1, ctx.problem.nodes.len())','ctx.random.range_usize(1, ctx.problem.num_customers().max(2))')],
 RR1 + r"""
fn main() {
    // the last customer lies next to 1, the others next to each other; one customer on each route
    let inst = Inst {
        xy: vec![(0.0, 0.0), (100.0, 0.0), (0.0, 100.0), (0.0, 101.0), (3.0, 102.0), (102.0, 0.0), (100.0, 3.0)],
        d: vec![0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
        cap: 1.0,
        lower: None,
    };
    let mut c = cfg(9);
    c.average_ruin_cardinality = 1;
    c.max_ruin_string_length = 1;
    let ctx = context(&inst, c);
    let ruin = AdjacentStringRemoval::new(&ctx);
    // 5 and 6 are nearest to 1, 1 is nearest to 5 and 6
    let mut first = 0;
    for _ in 0..3000 {
        let mut x = solution(&ctx, &[vec![1], vec![2], vec![3], vec![4], vec![5], vec![6]]);
        ruin.run(&ctx, &mut x);
        if x.unassigned.len() == 1 {
            first += (x.unassigned[0] == 1) as u32;
        }
    }
    if first < 850 {
        fail(format!("customer 1, nearest of two in six, was removed in {} of 3000 ruins", first));
    }
}
""")
plant('C26-filled-average','C26',
 'a solution with empty routes, and strings that may be longer than its mean route over all vehicles',
 'the mean number of customers on a route leaves out empty routes, so that strings get longer than documented',
 [(R+'ruin.rs','            / solution.routes.len() as f64)','            / solution.routes.iter().filter(|route| !route.nodes.is_empty()).count() as f64)')],
 RR1 + r"""
fn main() {
    let inst = Inst::random(2, 12, 100, 5, 3.0);
    let mut c = cfg(4);
    c.max_ruin_string_length = 10;
    let ctx = context(&inst, c);
    let ruin = AdjacentStringRemoval::new(&ctx);
    let v = ctx.config.borrow().num_vehicles as usize;
    let most = (12.0 / v as f64).round().max(1.0) as usize;
    let routes = vec![(1..=12).collect::<Vec<usize>>()];
    let mut seen = 0;
    for _ in 0..500 {
        let mut x = solution(&ctx, &routes);
        ruin.run(&ctx, &mut x);
        seen = seen.max(x.unassigned.len());
    }
    if seen > most {
        fail(format!("a ruin removed {} customers of a route, at most {} on {} vehicles", seen, most, v));
    }
}
""")
plant('C26-kept-part','C26',
 'many ruins whose string is split',
 'the kept part of a split string is never as long as the route allows',
 [(R+'ruin.rs','while m < m_max && ctx.random.real() > self.alpha {','while m + 1 < m_max && ctx.random.real() > self.alpha {')],
 RR1 + r"""
fn main() {
    let mut inst = Inst::random(2, 10, 100, 5, 3.0);
    inst.cap = 1000.0;
    let mut c = cfg(4);
    c.max_ruin_string_length = 3;
    let ctx = context(&inst, c);
    let ruin = AdjacentStringRemoval::new(&ctx);
    let routes = vec![(1..=10).collect::<Vec<usize>>()];
    let (mut ends, mut two) = (0, 0);
    for _ in 0..3000 {
        let mut x = solution(&ctx, &routes);
        ruin.run(&ctx, &mut x);
        let t = taken(&routes[0], &nodes(&x)[0]);
        if t.len() > 1 && t[t.len() - 1] - t[0] + 1 > t.len() {
            two += 1;
            ends += (t[0] == 0 && t[t.len() - 1] == 9) as u32;
        }
    }
    // 0.99 to the 6th or 7th
    if two > 100 && ends * 10 < two * 8 {
        fail(format!("{} of {} split strings reach from end to end", ends, two));
    }
}
""")
plant('C26-added-overload','C26',
 'a recreate where nothing fits and a nearer route is overloaded already',
 'a customer is charged for the overload it adds instead of the overload of the route, where nothing fits',
 [(R+'recreate.rs','let overload_cost = 0f64.max(overload) * ctx.config.borrow().penalty_capacity;','let overload_cost = (0f64.max(overload) - 0f64.max(route.overload))\n                        * ctx.config.borrow().penalty_capacity;')],
 RR1 + r"""
fn main() {
    // all routes are full; the one next to the customer is far over its capacity
    let inst = Inst {
        xy: vec![(0.0, 0.0), (50.0, 0.0), (51.0, 0.0), (52.0, 0.0), (0.0, 9.0), (0.0, -9.0), (-9.0, 0.0), (9.0, 0.0)],
        d: vec![0.0, 2.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0],
        cap: 10.0,
        lower: None,
    };
    let ctx = context(&inst, cfg(1));
    ctx.config.borrow_mut().penalty_capacity = 20.0;
    let v = ctx.config.borrow().num_vehicles as usize;
    let mut routes = vec![vec![2, 3], vec![4], vec![5], vec![6], vec![7]];
    if v < routes.len() {
        fail("too few vehicles".into());
    }
    routes.truncate(v);
    let mut x = solution(&ctx, &routes);
    // empty routes count as full
    for r in x.routes.iter_mut() {
        if r.nodes.is_empty() {
            r.overload = 5000.0;
        }
    }
    x.unassigned = vec![1];
    x.ruined_routes.insert(0);
    GreedyBlink::default().run(&ctx, &mut x);
    let r = nodes(&x);
    if r[0].contains(&1) {
        fail(format!("{:?}: put where the overload is 12, though 2 is possible for less than the difference", r));
    }
}
""")
plant('C26-short-strings','C26',
 'many ruins: strings of the least and the largest length',
 'lengths of strings are drawn by rounding: one customer half as often again, the largest length half as often',
 [(R+'ruin.rs','let lt = (ctx.random.real() * ltmax).floor() as usize + 1;','let lt = ((ctx.random.real() * ltmax).round() as usize).max(1);')],
 RR1 + r"""
fn main() {
    let mut inst = Inst::random(2, 10, 100, 5, 3.0);
    inst.cap = 1000.0;
    let mut c = cfg(4);
    c.max_ruin_string_length = 2;
    let ctx = context(&inst, c);
    let ruin = AdjacentStringRemoval::new(&ctx);
    let routes = vec![(1..=10).collect::<Vec<usize>>()];
    let mut one = 0;
    for _ in 0..4000 {
        let mut x = solution(&ctx, &routes);
        ruin.run(&ctx, &mut x);
        one += (x.unassigned.len() == 1) as u32;
    }
    if one > 2300 || one < 1700 {
        fail(format!("{} of 4000 strings of one or two customers have one", one));
    }
}
""")
