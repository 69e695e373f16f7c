W = 'src/wasm/mod.rs'
WEB = r"""
use hybridcvrp::Solver as Web;

#[allow(dead_code)]
fn load(w: &mut Web, inst: &Inst) {
    for i in 0..inst.xy.len() {
        w.add_node(i + 1, inst.d[i] as i32, inst.xy[i].0 as i32, inst.xy[i].1 as i32);
    }
    w.add_capacity(inst.cap as i32);
    w.load_problem();
}
#[allow(dead_code)]
fn small(w: &mut Web) {
    w.update_time_limit(100000);
    w.update_initial_individuals(6);
    w.update_min_population_size(4);
    w.update_generation_size(4);
}
/// routes and cost a step returned
#[allow(dead_code)]
fn stepped(w: &mut Web) -> Option<(Vec<Vec<usize>>, f64)> {
    let v = w.iterate();
    let t = v.text()?;
    let y: serde_yaml::Value = serde_yaml::from_str(t).expect("text");
    Some((serde_yaml::from_value(y["routes"].clone()).expect("routes"), y["cost"].as_f64().or(y["cost"].as_i64().map(|x| x as f64)).expect("cost")))
}
#[allow(dead_code)]
fn length(inst: &Inst, routes: &[Vec<usize>]) -> f64 {
    let d = |a: usize, b: usize| ((inst.xy[a].0 - inst.xy[b].0).powi(2) + (inst.xy[a].1 - inst.xy[b].1).powi(2)).sqrt().round();
    let mut c = 0.0;
    for r in routes.iter().filter(|r| !r.is_empty()) {
        let mut l = 0;
        for &x in r {
            c += d(l, x);
            l = x;
        }
        c += d(l, 0);
    }
    c
}
#[allow(dead_code)]
fn random(r: &mut Rng, n: usize, scale: usize, cap: f64) -> Inst {
    let xy: Vec<(f64, f64)> = (0..=n).map(|_| (r.us(0, scale) as f64, r.us(0, scale) as f64)).collect();
    let d: Vec<f64> = (0..=n).map(|i| if i == 0 { 0.0 } else { r.us(1, 10) as f64 }).collect();
    Inst { xy, d, cap, lower: None }
}
"""
plant('C22-past-limit', 'C22',
 'a step that begins before the time limit, finds an improvement and ends after the limit',
 'the improvement found by the step that crosses the time limit is never returned',
 [(W, """            if !genetic.terminated() {
                genetic.iterate(&self.ctx.as_ref().unwrap());
            }
""", """            let ctx = self.ctx.as_ref().unwrap();
            if !genetic.terminated() {
                genetic.iterate(ctx);
            }
            // Nothing to report once the time is up
            if ctx.terminate() {
                return JsValue::NULL;
            }
""")], WEB + r"""
fn main() {
    let mut r = Rng(5);
    let mut late = 0;
    for n in [50usize, 100, 150] {
        let inst = random(&mut r, n, 1000, 100.0);
        let mut w = Web::new();
        w.update_time_limit(1);
        // long mutations
        w.update_rr_gamma(4000.0);
        let t = std::time::Instant::now();
        load(&mut w, &inst);
        for _ in 0..400 {
            let got = stepped(&mut w).is_some();
            if got && t.elapsed().as_secs_f64() > 1.02 {
                late += 1;
            }
        }
    }
    if late == 0 {
        fail("no step that crossed the limit returned what it had found".into());
    }
}
""", 'wasm')
plant('C22-temperature-mixed', 'C22',
 'the start temperature of the mutation is changed through the interface',
 'the start temperature of elite education is changed in its place',
 [(W, "        self.config.rr_start_temp = value;\n", "        self.config.elite_education_start_temp = value;\n")], WEB + r"""
fn main() {
    // hot mutation accepts everything, cold mutation nothing worse: the two differ in what they find
    let mut sum = [0.0f64; 2];
    let mut r = Rng(9);
    for _ in 0..12 {
        let inst = random(&mut r, 40, 1000, 40.0);
        for (k, t) in [0.001, 1.0e9].iter().enumerate() {
            let mut w = Web::new();
            small(&mut w);
            w.update_rr_gamma(60.0);
            w.update_initial_individuals(1);
            w.update_rr_start_temp(*t);
            load(&mut w, &inst);
            let mut first = f64::INFINITY;
            for _ in 0..3 {
                if let Some((_, c)) = stepped(&mut w) {
                    first = c;
                }
            }
            if first.is_finite() {
                sum[k] += first;
            }
        }
    }
    let ratio = sum[1] / sum[0];
    println!("hot/cold {:.4}", ratio);
    if ratio < 1.004 {
        fail(format!("a mutation at any temperature finds the same (ratio {:.4})", ratio));
    }
}
""", 'wasm')
plant('C22-clear-settings', 'C22',
 'settings, then clear, then another problem',
 'clearing forgets the settings too',
 [(W, """        self.wasm_problem = WasmProblem::new();
        self.ctx = None;
        self.metaheuristic = None;
        self.best_cost = f64::INFINITY;
""", """        *self = Self::new();
""")], WEB + r"""
fn main() {
    let mut r = Rng(3);
    let inst = random(&mut r, 20, 100, 50.0);
    let mut w = Web::new();
    w.update_time_limit(0);
    load(&mut w, &inst);
    w.clear();
    load(&mut w, &inst);
    for _ in 0..10 {
        if stepped(&mut w).is_some() {
            fail("cleared, the solver works beyond its time limit of zero".into());
        }
    }
}
""", 'wasm')
plant('C22-same-place', 'C22',
 'two nodes of a problem at the same place',
 'a node at the place of the one before is taken for a repeated call and dropped',
 [(W, "        self.wasm_problem.nodes.push(new_node);\n", """        // The page may send a node twice
        let repeated = self.wasm_problem.nodes.last().map_or(false, |last| {
            last.coord.lng == new_node.coord.lng
                && last.coord.lat == new_node.coord.lat
                && last.demand == new_node.demand
        });
        if !repeated {
            self.wasm_problem.nodes.push(new_node);
        }
""")], WEB + r"""
fn main() {
    let mut r = Rng(3);
    let mut inst = random(&mut r, 12, 100, 50.0);
    inst.xy[7] = inst.xy[6];
    inst.d[7] = inst.d[6];
    let mut w = Web::new();
    small(&mut w);
    load(&mut w, &inst);
    let mut best = None;
    for _ in 0..60 {
        best = stepped(&mut w).or(best);
    }
    let (routes, _) = best.unwrap_or_else(|| fail("no solution".into()));
    let mut seen: Vec<usize> = routes.into_iter().flatten().collect();
    seen.sort();
    if seen != (1..=12).collect::<Vec<_>>() {
        fail(format!("customers served: {:?}", seen));
    }
}
""", 'wasm')
plant('C22-best-short', 'C22',
 'costs beyond the whole numbers a 32-bit float holds',
 'the best cost is kept in less precision than it has, so that improvements are withheld or returned again',
 [(W, "                self.best_cost = entry.solution.cost;\n", "                self.best_cost = f64::from(entry.solution.cost as f32);\n")], WEB + r"""
fn main() {
    let mut r = Rng(21);
    for _ in 0..20 {
        let inst = random(&mut r, 25, 900_000_000, 1000.0);
        let mut w = Web::new();
        small(&mut w);
        load(&mut w, &inst);
        let mut last = f64::INFINITY;
        for k in 0..80 {
            if let Some((routes, c)) = stepped(&mut w) {
                if c >= last {
                    fail(format!("step {} returned {} after {}", k, c, last));
                }
                if (length(&inst, &routes) - c).abs() > 1.0 {
                    fail("cost".into());
                }
                last = c;
            }
        }
    }
}
""", 'wasm')
plant('C22-first-capacity', 'C22',
 'the capacity is set a second time before the problem is loaded',
 'the first capacity set is used, not the last',
 [(W, "        self.wasm_problem.vehicle = Some(Vehicle {\n            id: 0,\n", "        self.wasm_problem.vehicle.get_or_insert(Vehicle {\n            id: 0,\n")], WEB + r"""
fn main() {
    let mut r = Rng(3);
    let mut inst = random(&mut r, 15, 100, 1000.0);
    let mut w = Web::new();
    small(&mut w);
    w.add_capacity(1000);
    inst.cap = 20.0;
    load(&mut w, &inst);
    for _ in 0..60 {
        if let Some((routes, _)) = stepped(&mut w) {
            if let Some(q) = routes.iter().find(|q| q.iter().map(|&c| inst.d[c]).sum::<f64>() > 20.0) {
                fail(format!("route {:?} is overloaded", q));
            }
        }
    }
}
""", 'wasm')
