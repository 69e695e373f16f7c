MEM = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn live() -> isize {
    LIVE.load(Relaxed)
}
"""
plant('C28-kept-distances','C28',
 'a long search: thousands of generations',
 'of a member that leaves the population its distances to the others are kept, the table grows with every generation',
 [(G+'population.rs','''        self.diversity.remove(&individual.number);
''','''        self.diversity.entry(individual.number).or_default().clear();
''')],
 MEM + r"""
fn main() {
    let mut c = cfg(3);
    c.min_population_size = 4;
    c.population_lambda = 5;
    c.max_iterations_without_improvement = 1_000_000;
    let mut s = solver(&Inst::random(3, 6, 100, 9, 3.0), c);
    let mut seen = vec![];
    for i in 0..12_001 {
        step(&mut s);
        if i % 4000 == 0 {
            seen.push(live());
        }
    }
    if seen[3] > seen[1] + 30_000 {
        fail(format!("bytes in use after 0, 4000, 8000, 12000 generations: {:?}", seen));
    }
}
""")
plant('C28-archive','C28',
 'many restarts',
 'at each restart the old population is put aside and never freed during the run',
 [(G+'genetic.rs','''        self.population = Population::new(ctx);
        self.next_penalty_update''','''        // Keep what the epoch has found
        let old = std::mem::replace(&mut self.population, Population::new(ctx));
        self.archive.push(old);
        self.next_penalty_update'''),
  (G+'genetic.rs','''    pub population: Population,
''','''    pub population: Population,
    // Those of earlier epochs
    pub archive: Vec<Population>,
'''),
  (G+'genetic.rs','''            population: Population::new(ctx),
            split''','''            population: Population::new(ctx),
            archive: Vec::new(),
            split''')],
 MEM + r"""
fn main() {
    let mut c = cfg(3);
    c.min_population_size = 4;
    c.population_lambda = 5;
    c.max_iterations_without_improvement = 10;
    let mut s = solver(&Inst::random(3, 20, 100, 9, 3.0), c);
    // restarts and bytes in use
    let mut seen = vec![];
    let mut restarts = 0;
    while restarts < 600 {
        step(&mut s);
        let n = s.ctx.search_history.borrow().messages.iter().filter(|m| m.message == "Resetting").count();
        if n > restarts {
            restarts = n;
            if n % 200 == 0 {
                seen.push(live());
            }
        }
    }
    if (seen[2] - seen[0]) / 400 > 250 {
        fail(format!("bytes in use after 200, 400, 600 restarts: {:?}", seen));
    }
}
""")
plant('C28-leaked-context','C28',
 'dropped local searches, as every search and every sub-search of a decomposed run has one',
 'a copy of the nearest-neighbour order is leaked for a static reference',
 [(I+'local_search.rs',"""    pub correlation: CorrelationMatrix,""","""    pub correlation: &'static CorrelationMatrix,"""),
  (I+'local_search.rs',"""                correlation: ctx.matrix_provider.correlation.clone(),""","""                correlation: Box::leak(Box::new(ctx.matrix_provider.correlation.clone())),""")],
 MEM + r"""
fn main() {
    let inst = Inst::random(3, 30, 100, 9, 3.0);
    let one = || {
        let mut s = solver(&inst, cfg(3));
        for _ in 0..20 {
            step(&mut s);
        }
    };
    one();
    let a = live();
    for _ in 0..10 {
        one();
    }
    if live() > a + 1000 {
        fail(format!("ten searches leave {} bytes", live() - a));
    }
}
""")
plant('C28-feasible-history','C28',
 'a very long search',
 'the record of which individuals were feasible is never shortened, only its end is looked at',
 [(G+'population.rs','''            self.feasible_history.remove(0);''','''            self.history_start += 1;'''),
  (G+'population.rs','''    pub feasible_history: Vec<bool>,
}''','''    pub feasible_history: Vec<bool>,
    // Where the recent part starts
    history_start: usize,
}'''),
  (G+'population.rs','''            feasible_history: vec![true; 100],''','''            feasible_history: vec![true; 100],
            history_start: 0,'''),
  (G+'population.rs','''        self.feasible_history.iter().filter(|&&x| x).count() as f64
            / self.feasible_history.len() as f64''','''        let recent = &self.feasible_history[self.history_start..];
        recent.iter().filter(|&&x| x).count() as f64 / recent.len() as f64''')],
 MEM + r"""
fn main() {
    let mut c = cfg(3);
    c.min_population_size = 4;
    c.population_lambda = 5;
    c.max_iterations_without_improvement = 10_000_000;
    let mut s = solver(&Inst::random(3, 4, 100, 9, 3.0), c);
    let mut seen = vec![];
    for i in 0..300_001 {
        step(&mut s);
        if i % 100_000 == 0 {
            seen.push(live());
        }
    }
    if seen[3] > seen[1] + 50_000 {
        fail(format!("bytes in use after 0, 100000, 200000, 300000 generations: {:?}", seen));
    }
}
""")
plant('C28-all-routes','C28',
 'many improvements of a larger instance',
 'every improvement keeps its routes, not only the last one',
 [('src/solver/history.rs','''        if let Some(last) = self.history.last_mut() {
            last.solution.routes = Vec::new();
        }''','''        if let Some(last) = self.history.last_mut() {
            // The solution is not needed any more
            last.solution.routes.iter_mut().for_each(|route| route.clear());
        }''')],
 MEM + r"""
fn main() {
    let inst = Inst::random(3, 60, 100, 9, 4.0);
    let s = solver(&inst, cfg(3));
    let ctx = &s.ctx;
    let mut r = Rng(5);
    let ind = random_individual(ctx, &inst, &mut r);
    let mut seen = vec![];
    for i in 0..1201 {
        ctx.search_history.borrow_mut().add(ctx, &ind);
        if i % 400 == 0 {
            seen.push(live());
        }
    }
    if seen[3] - seen[1] > 300_000 {
        fail(format!("bytes in use after 0, 400, 800, 1200 improvements: {:?}", seen));
    }
}
""")
