// Shared by the demonstrations: random instances, an independent model of them, and a scratch directory.
#![allow(dead_code)]
pub use hybridcvrp::config::Config;
pub use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual};
pub use hybridcvrp::solver::{Context, Metaheuristic, Solver};
pub use hybridcvrp::utils::ProblemParser;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        a + (self.u64() % (b - a) as u64) as usize
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(0, i + 1);
            v.swap(i, j);
        }
    }
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub xy: Vec<(f64, f64)>,
    pub d: Vec<f64>,
    pub cap: f64,
    pub lower: Option<Vec<Vec<f64>>>,
}
impl Inst {
    /// n customers on a grid of `side`, demands 1..=dmax, about `per` average customers a vehicle
    pub fn random(seed: u64, n: usize, side: usize, dmax: usize, per: f64) -> Inst {
        let mut r = Rng(seed);
        let xy = (0..=n).map(|_| (r.us(0, side) as f64, r.us(0, side) as f64)).collect();
        let mut d: Vec<f64> = (0..=n).map(|_| r.us(1, dmax + 1) as f64).collect();
        d[0] = 0.0;
        let avg = d.iter().sum::<f64>() / n as f64;
        let cap = (avg * per).ceil().max(dmax as f64);
        Inst { xy, d, cap, lower: None }
    }
    pub fn n(&self) -> usize {
        self.xy.len() - 1
    }
    pub fn text(&self) -> String {
        let mut t = format!("NAME : demo\nTYPE : CVRP\nDIMENSION : {}\n", self.xy.len());
        match &self.lower {
            None => t += "EDGE_WEIGHT_TYPE : EUC_2D\n",
            Some(_) => t += "EDGE_WEIGHT_TYPE : EXPLICIT\nEDGE_WEIGHT_FORMAT : LOWER_ROW\n",
        }
        t += &format!("CAPACITY : {}\nNODE_COORD_SECTION\n", self.cap);
        for (i, p) in self.xy.iter().enumerate() {
            t += &format!("{} {} {}\n", i + 1, p.0, p.1);
        }
        if let Some(l) = &self.lower {
            t += "EDGE_WEIGHT_SECTION\n";
            for row in l {
                t += &row.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
                t += "\n";
            }
        }
        t += "DEMAND_SECTION\n";
        for (i, d) in self.d.iter().enumerate() {
            t += &format!("{} {}\n", i + 1, d);
        }
        t + "DEPOT_SECTION\n 1\n -1\nEOF\n"
    }
    pub fn dist(&self, a: usize, b: usize, rounded: bool) -> f64 {
        let v = match &self.lower {
            _ if a == b => 0.0,
            Some(l) => l[a.max(b) - 1][a.min(b)],
            None => ((self.xy[a].0 - self.xy[b].0).powi(2) + (self.xy[a].1 - self.xy[b].1).powi(2)).sqrt(),
        };
        if rounded {
            v.round()
        } else {
            v
        }
    }
    pub fn cost(&self, routes: &[Vec<usize>], rounded: bool) -> f64 {
        let mut s = 0.0;
        for r in routes.iter().filter(|r| !r.is_empty()) {
            let mut last = 0;
            for &c in r {
                s += self.dist(last, c, rounded);
                last = c;
            }
            s += self.dist(last, 0, rounded);
        }
        s
    }
    pub fn load(&self, r: &[usize]) -> f64 {
        r.iter().map(|&c| self.d[c]).sum()
    }
    pub fn pen_cost(&self, routes: &[Vec<usize>], rounded: bool, pen: f64) -> f64 {
        self.cost(routes, rounded) + pen * routes.iter().map(|r| (self.load(r) - self.cap).max(0.0)).sum::<f64>()
    }
    pub fn complete(&self, routes: &[Vec<usize>]) -> bool {
        let mut all: Vec<usize> = routes.iter().flatten().copied().collect();
        all.sort();
        all == (1..=self.n()).collect::<Vec<_>>()
    }
    pub fn fits(&self, routes: &[Vec<usize>]) -> bool {
        routes.iter().all(|r| self.load(r) <= self.cap + 1e-5)
    }
}
/// current directory: the demonstration's own scratch directory
pub fn file(name: &str) -> String {
    std::env::current_dir().unwrap().join(name).to_string_lossy().into_owned()
}
/// deterministic defaults for small instances, no time limit that matters
pub fn cfg(seed: u64) -> Config {
    let mut c = Config::default();
    c.deterministic = true;
    c.seed = seed;
    c.time_limit = 1_000_000;
    c.min_population_size = 8;
    c.population_lambda = 10;
    c.initial_individuals = 12;
    c
}
pub fn parse(inst: &Inst, c: &mut Config) -> ProblemParser {
    let p = file("demo.vrp");
    std::fs::write(&p, inst.text()).unwrap();
    c.instance_path = p;
    let mut parser = ProblemParser::new();
    parser.parse(c);
    parser
}
pub fn context(inst: &Inst, mut c: Config) -> Context {
    let parser = parse(inst, &mut c);
    Context::new(parser, c, std::time::Instant::now())
}
pub fn solver(inst: &Inst, c: Config) -> Solver<GeneticAlgorithm> {
    let ctx = context(inst, c);
    let ga = GeneticAlgorithm::new(&ctx);
    Solver::new(ctx, ga)
}
pub fn step(s: &mut Solver<GeneticAlgorithm>) {
    s.metaheuristic.iterate(&s.ctx);
}
/// (costs of all improvements, last routes)
pub fn history(ctx: &Context) -> (Vec<f64>, Vec<Vec<usize>>) {
    let h = ctx.search_history.borrow();
    (h.entries().iter().map(|e| e.solution.cost).collect(), h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default())
}
pub fn fail(msg: String) -> ! {
    println!("BROKEN: {}", msg);
    std::process::exit(1)
}
/// random routes over all vehicles of the context
pub fn random_individual(ctx: &Context, inst: &Inst, r: &mut Rng) -> Individual {
    let v = ctx.config.borrow().num_vehicles as usize;
    let mut order: Vec<usize> = (1..=inst.n()).collect();
    r.shuffle(&mut order);
    let mut ind = Individual::new_random(ctx, 0);
    ind.phenotype = vec![vec![]; v];
    let used = r.us(1, v + 1);
    for c in order {
        let k = r.us(0, used);
        ind.phenotype[k].push(c);
    }
    ind.genotype = ind.phenotype.iter().flatten().copied().collect();
    ind.evaluate(ctx);
    ind
}
