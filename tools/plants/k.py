PROG = r"""
use std::process::{Command, Stdio};
/// the program in the current directory: status, standard error
fn program(inst: &Inst, config: &str, level: &str) -> (bool, Vec<String>) {
    let o = start(inst, config, level).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stderr).lines().map(|l| l.to_string()).collect())
}
fn start(inst: &Inst, config: &str, level: &str) -> Command {
    std::fs::write("prog.vrp", inst.text()).unwrap();
    std::fs::write("config.yml", config).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("shipped"));
    c.arg("prog.vrp").env("RUST_LOG", level).stdout(Stdio::null()).stderr(Stdio::piped());
    c
}
/// the improvements the library makes on the way
fn improvements(inst: &Inst, mut c: Config, iterations: u64) -> Vec<f64> {
    c.max_iterations = Some(iterations);
    let mut s = solver(inst, c);
    while !hybridcvrp::solver::Metaheuristic::terminated(&s.metaheuristic) {
        step(&mut s);
    }
    history(&s.ctx).0
}
const CONFIG: &str = "deterministic: true\ntime_limit: 1000000\nmin_population_size: 8\npopulation_lambda: 10\ninitial_individuals: 12\n";
"""
plant('C27-late-start','C27',
 'an instance that takes a while to load',
 'recorded times and the logged ones count from the end of loading, not from the start of the program',
 [('src/solver/context.rs','search_history: RefCell::new(SearchHistory::new(start_time)),','search_history: RefCell::new(SearchHistory::new(start_time.max(Instant::now()))),')],
 r"""
use std::time::{Duration, Instant};
fn main() {
    let inst = Inst::random(3, 8, 100, 9, 3.0);
    let mut c = cfg(3);
    let parser = parse(&inst, &mut c);
    let start = Instant::now();
    std::thread::sleep(Duration::from_millis(700));
    let ctx = Context::new(parser, c, start);
    let ga = GeneticAlgorithm::new(&ctx);
    let mut s = Solver::new(ctx, ga);
    for _ in 0..30 {
        step(&mut s);
    }
    let h = s.ctx.search_history.borrow();
    if h.entries().is_empty() || h.entries().iter().any(|e| e.timestamp < Duration::from_millis(700)) {
        fail(format!("times {:?}", h.entries().iter().map(|e| e.timestamp).collect::<Vec<_>>()));
    }
}
""")
plant('C27-quick-ones','C27',
 'two improvements within the same millisecond',
 'of improvements that come at the same moment only the first is logged',
 [('src/solver/history.rs','''        log::info!("{}", new_best_message);
''','''        let same_moment = self.history.last().map_or(false, |last| {
            last.timestamp.as_millis() == timestamp.as_millis() && timestamp.as_millis() > 0
        });
        if !same_moment {
            log::info!("{}", new_best_message);
        }
''')],
 PROG + r"""
fn main() {
    let inst = Inst::random(3, 20, 100, 9, 4.0);
    for seed in 1..=40 {
        let want = improvements(&inst, cfg(seed), 30);
        let (ok, log) = program(&inst, &format!("{}seed: {}\nmax_iterations: 30\n", CONFIG, seed), "info");
        let got: Vec<f64> = log.iter().filter_map(|l| l.split("New best: ").nth(1)).map(|x| x.parse().unwrap()).collect();
        if !ok || got != want {
            fail(format!("seed {}: logged {:?}, made {:?}", seed, got, want));
        }
    }
}
""", 'prog')
plant('C27-one-behind','C27',
 'a program that is stopped',
 'an improvement is logged when the next one comes, so a stopped run has not logged its last one',
 [('src/solver/history.rs','''        log::info!("{}", new_best_message);
''','''        if let Some(last) = self.pending.replace(new_best_message) {
            log::info!("{}", last);
        }
'''),('src/solver/history.rs','''    log_new_best: bool,
}''','''    log_new_best: bool,

    /// An improvement that is not yet in the log
    pub pending: Option<HistoryMessage>,
}'''),('src/solver/history.rs','''            log_new_best: true,
''','''            log_new_best: true,
            pending: None,
'''),('src/solver/solver.rs','''        log::info!("Time: {:?}, Completed", self.ctx.elapsed());''','''        if let Some(last) = self.ctx.search_history.borrow_mut().pending.take() {
            log::info!("{}", last);
        }
        log::info!("Time: {:?}, Completed", self.ctx.elapsed());''')],
 PROG + r"""
use std::io::Read;
fn main() {
    let inst = Inst::random(3, 1, 100, 9, 4.0);
    let mut p = start(&inst, &format!("{}seed: 3\n", CONFIG), "info").spawn().unwrap();
    std::thread::sleep(std::time::Duration::from_secs(3));
    p.kill().unwrap();
    p.wait().unwrap();
    let mut log = String::new();
    p.stderr.take().unwrap().read_to_string(&mut log).unwrap();
    if log.lines().filter(|l| l.contains("New best: ")).count() != 1 {
        fail(format!("after three seconds: {}", log));
    }
}
""", 'prog')
plant('C27-loud','C27',
 'RUST_LOG=warn, or standard error that is full',
 'improvements are printed to standard error at every level, and a failing write ends the run',
 [('src/solver/history.rs','''        log::info!("{}", new_best_message);
''','''        if log::log_enabled!(log::Level::Info) {
            log::info!("{}", new_best_message);
        } else {
            eprintln!("{}", new_best_message);
        }
''')],
 PROG + r"""
fn main() {
    let inst = Inst::random(3, 12, 100, 9, 4.0);
    for level in ["info", "warn", "error", "off"] {
        let config = format!("{}seed: 3\nmax_iterations: 20\n", CONFIG);
        let (ok, log) = program(&inst, &config, level);
        let n = log.iter().filter(|l| l.contains("New best: ")).count();
        if !ok || (n > 0) != (level == "info") {
            fail(format!("level {}: {:?}", level, log));
        }
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        if !start(&inst, &config, level).stderr(full).status().unwrap().success() {
            fail(format!("level {}: a full log ends the run", level));
        }
    }
}
""", 'prog')
plant('C27-old-message','C27',
 'a restart some time after the last improvement',
 'a message carries the time of the last improvement instead of its own',
 [('src/solver/history.rs','''            message,
            timestamp: self.start_time.elapsed(),''','''            message,
            timestamp: self.last_message_time(),'''),('src/solver/history.rs','''    pub fn add_message(&mut self, message: String) {''','''    /// Time of a message: that of the solution it goes with, if there is one
    fn last_message_time(&self) -> Duration {
        let now = self.start_time.elapsed();
        match self.history.last() {
            Some(entry) if now.as_secs() == entry.timestamp.as_secs() => entry.timestamp,
            _ => now,
        }
    }

    pub fn add_message(&mut self, message: String) {''')],
 r"""
use std::time::Duration;
fn main() {
    let inst = Inst::random(3, 6, 100, 9, 3.0);
    let mut c = cfg(3);
    c.max_iterations_without_improvement = 30;
    let mut s = solver(&inst, c);
    let mut seen = 0;
    for _ in 0..400 {
        std::thread::sleep(Duration::from_millis(4));
        let before = s.ctx.elapsed();
        step(&mut s);
        let h = s.ctx.search_history.borrow();
        for m in &h.messages[seen..] {
            if m.timestamp < before {
                fail(format!("at {:?}: {:?}", before, m));
            }
        }
        seen = h.messages.len();
    }
}
""")
plant('C27-wrong-name','C27',
 'an instance with exactly as many customers as decomposition starts at',
 'the log names the plain algorithm although the decomposing one runs',
 [('src/main.rs','''    match should_decompose {
        true => {''','''    if should_decompose && ctx.problem.dim() as u64 > ctx.config.borrow().decompose_limit + 1 {
        log::info!("Algorithm: Decomposed Genetic Algorithm");
    } else {
        log::info!("Algorithm: Genetic Algorithm");
    }
    match should_decompose {
        true => {'''),('src/main.rs','''            log::info!("Algorithm: Decomposed Genetic Algorithm");
            solver.run();''','''            solver.run();'''),('src/main.rs','''            log::info!("Algorithm: Genetic Algorithm");
            solver.run();''','''            solver.run();''')],
 PROG + r"""
fn main() {
    let inst = Inst::random(3, 12, 100, 9, 4.0);
    for limit in [11, 12, 13] {
        let config = format!("{}seed: 3\nmax_iterations: 20\ndecompose_limit: {}\n", CONFIG.replace("1000000", "2"), limit);
        let (ok, log) = program(&inst, &config, "info");
        if !ok || log.iter().any(|l| l.contains("Algorithm: Decomposed")) != (limit <= 12) {
            fail(format!("limit {}: {:?}", limit, log));
        }
    }
}
""", 'prog')
plant('C27-debug-draws','C27',
 'RUST_LOG=debug or trace',
 'a random number drawn for the debug log only changes the search',
 [(G+'genetic.rs','''        let mut log_text = String::new();''','''        // Number of a random member in front, for the debug log
        let mut log_text = if log::log_enabled!(log::Level::Debug) {
            format!("Sample {} | ", ctx.random.range_usize(0, self.population.feasible.size().max(1)))
        } else {
            String::new()
        };''')],
 PROG + r"""
fn main() {
    let inst = Inst::random(3, 30, 100, 9, 4.0);
    for seed in 1..=6 {
        let config = format!("{}seed: {}\nmax_iterations: 300\n", CONFIG, seed);
        let best = |level| program(&inst, &config, level).1.iter().filter_map(|l| l.split("New best: ").nth(1).map(|x| x.to_string())).collect::<Vec<_>>();
        if best("info") != best("debug") {
            fail(format!("seed {}: the level changes the search", seed));
        }
    }
}
""", 'prog')
