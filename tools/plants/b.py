G='src/solver/genetic/'; I='src/solver/improvement/'; R=I+'ruin_recreate/'; M=I+'moves/'
READ_HOOK = r'''
// replaces libc's read for this program: MODE 0 plain, 1 short reads, 2 an error after AFTER bytes, on the file FD
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
static MODE: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let mut n = n;
    if fd > 2 && n > 0 {
        match MODE.load(SeqCst) {
            1 => n = n.min(LEFT.load(SeqCst).max(1) as usize),
            2 => {
                let left = LEFT.load(SeqCst);
                if left <= 0 {
                    *__errno_location() = 5;
                    return -1;
                }
                n = n.min(left as usize);
            }
            _ => {}
        }
    }
    let r = syscall(0, fd, buf, n);
    if r > 0 && MODE.load(SeqCst) == 2 && fd > 2 {
        LEFT.fetch_sub(r, SeqCst);
    }
    r as isize
}
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
'''
plant('C06-empty-route-hash','C06',
 'local search with several empty routes to choose from: which one is tried depends on the process',
 'the set of empty routes is hashed with process-random keys, so two deterministic runs with one seed part',
 [(I+'local_search.rs','''                empty_routes: HashSet::with_capacity_and_hasher(
                    num_vehicles,
                    ctx.random.random_state(),
                ),''','''                empty_routes: HashSet::with_capacity_and_hasher(num_vehicles, RandomState::new()),''')],
 r'''
fn main() {
    for seed in 0..20u64 {
        let inst = Inst::random(seed, 40, 300, 9, 3.0);
        let mut runs = vec![];
        for _ in 0..3 {
            let mut s = solver(&inst, cfg(seed));
            for _ in 0..60 {
                step(&mut s);
            }
            runs.push(history(&s.ctx));
        }
        if runs.iter().any(|r| *r != runs[0]) {
            fail(format!("seed {}: {:?}", seed, runs.iter().map(|r| r.0.clone()).collect::<Vec<_>>()));
        }
    }
}
''')
plant('C06-initial-time-share','C06',
 'a clock that passes half the time limit while the initial population is still being built',
 'the size of the initial population depends on the speed of the machine, so a run is no longer a prefix of a longer one',
 [(G+'genetic.rs','''                if self.num_initialized < ctx.config.borrow().initial_individuals {
''','''                if self.num_initialized < ctx.config.borrow().initial_individuals
                    && (self.num_initialized < 2
                        || ctx.elapsed_as_secs_f64() < ctx.config.borrow().time_limit as f64 * 0.5)
                {
''')],
 r'''
fn main() {
    let inst = Inst::random(5, 80, 300, 9, 6.0);
    let run = |limit: u64, steps: usize, secs: u64| {
        let mut c = cfg(5);
        c.initial_individuals = 100000;
        c.time_limit = limit;
        let mut s = solver(&inst, c);
        let t = std::time::Instant::now();
        let mut n = 0;
        while n < steps && t.elapsed().as_secs() < secs && !s.metaheuristic.terminated() {
            step(&mut s);
            n += 1;
        }
        (n, s.metaheuristic.iterations, history(&s.ctx).0)
    };
    let a = run(3, usize::MAX, 60);
    let b = run(1_000_000, a.0, 120);
    if a.1 != b.1 || !b.2.starts_with(&a.2) {
        fail(format!("{} generations {:?} before the deadline, {} generations {:?} in as many steps of a longer run", a.1, a.2, b.1, b.2));
    }
}
''')
plant('C07-missing-demand','C07',
 'an instance file cut inside its last demand record, after the customer number',
 'a demand record without a demand counts as demand 0, so a truncated file loads as a different problem',
 [('src/utils/parser.rs','.map(|line| line[1].parse::<f64>().expect("Failed to parse demand"))',
  '.map(|line| match line.get(1) {\n                        Some(value) => value.parse::<f64>().expect("Failed to parse demand"),\n                        None => 0.0,\n                    })')],
 r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let inst = Inst::random(1, 12, 100, 9, 3.0);
    let text = inst.text();
    let end = text.find("DEPOT_SECTION").unwrap();
    let p = file("cut.vrp");
    for n in 0..end - 2 {
        std::fs::write(&p, &text[..n]).unwrap();
        let p = p.clone();
        let r = std::panic::catch_unwind(move || {
            let mut c = cfg(1);
            c.instance_path = p;
            let mut parser = ProblemParser::new();
            parser.parse(&mut c);
            parser.problem.unwrap().nodes.iter().map(|n| n.demand).collect::<Vec<_>>()
        });
        if let Ok(d) = r {
            if d != inst.d {
                fail(format!("the first {} bytes load as demands {:?}", n, d));
            }
        }
    }
}
''')
plant('C07-last-coordinate','C07',
 'an instance file with its coordinates last, cut between the two coordinates of the last customer',
 'the second coordinate is taken from the end of the line, so a file cut before it loads with the first in its place',
 [('src/utils/parser.rs','lat: line[2].parse::<f64>().expect("Failed to parse coordinate"),','lat: line[line.len() - 1]\n                            .parse::<f64>()\n                            .expect("Failed to parse coordinate"),')],
 r"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let inst = Inst::random(1, 12, 100, 9, 3.0);
    let whole = inst.text();
    // sections the other way round
    let (a, b) = (whole.find("NODE_COORD_SECTION").unwrap(), whole.find("DEMAND_SECTION").unwrap());
    let e = whole.find("DEPOT_SECTION").unwrap();
    let text = format!("{}{}{}", &whole[..a], &whole[b..e], &whole[a..b]);
    let p = file("cut.vrp");
    for n in 0..text.len() - 3 {
        std::fs::write(&p, &text[..n]).unwrap();
        let p = p.clone();
        let r = std::panic::catch_unwind(move || {
            let mut c = cfg(1);
            c.instance_path = p;
            let mut parser = ProblemParser::new();
            parser.parse(&mut c);
            parser.problem.unwrap().nodes.iter().map(|n| (n.coord.lng, n.coord.lat)).collect::<Vec<_>>()
        });
        if let Ok(xy) = r {
            if xy != inst.xy {
                fail(format!("the first {} of {} bytes load as {:?}", n, text.len(), xy));
            }
        }
    }
}
""")
plant('C08-stop-at-unknown','C08',
 'a config file with an unknown key ahead of a known one',
 'settings behind an unknown key are silently not applied',
 [('src/config.rs','''                    if let Some(config_value) = config.get_mut(key) {
                        *config_value = value.clone();
                    }''','''                    match config.get_mut(key) {
                        Some(config_value) => *config_value = value.clone(),
                        None => break,
                    }''')],
 r'''
fn main() {
    std::fs::write(file("c.yml"), "time_limit: 7\nlegacy_option: 3\nseed: 42\nround_distances: false\n").unwrap();
    let c = Config::load_yaml_file(&file("c.yml"));
    if c.time_limit != 7 || c.seed != 42 || c.round_distances {
        fail(format!("{:?}", c));
    }
}
''')
plant('C08-shorter-limit','C08',
 'a time limit on the command line that is longer than the one in the config file',
 'the command line can only shorten the time limit',
 [('src/config.rs','            self.time_limit = time_limit;','            self.time_limit = time_limit.min(self.time_limit);')],
 r"""
fn main() {
    for file_has in [5, 60, 1000] {
        for line in [None, Some(5), Some(60), Some(1000)] {
            let mut c = Config::default();
            c.time_limit = file_has;
            c.update_from_args(&hybridcvrp::cli::Args {
                instance_path: "x".into(),
                solution_path: None,
                time_limit: line,
                max_iterations: None,
                rounded: None,
            });
            if c.time_limit != line.unwrap_or(file_has) {
                fail(format!("file {} line {:?} gives {}", file_has, line, c.time_limit));
            }
        }
    }
}
""")
plant('C09-no-truncate','C09',
 'an older, longer solution file in place of the new one',
 'the tail of the older file stays behind the new solution',
 [('src/utils/serializer.rs','''            .create(true)
            .truncate(true)
''','''            .create(true)
''')],
 r'''
fn main() {
    let inst = Inst::random(2, 10, 100, 9, 3.0);
    let mut c = cfg(2);
    let out = file("out.sol");
    c.solution_path = Some(out.clone());
    std::fs::write(&out, "old line\n".repeat(200)).unwrap();
    let mut s = solver(&inst, c);
    for _ in 0..40 {
        step(&mut s);
    }
    hybridcvrp::utils::write_solution_file(&s.ctx);
    let h = s.ctx.search_history.borrow();
    let want = format!("{}\n", h.last_entry().unwrap().solution);
    if std::fs::read_to_string(&out).unwrap() != want {
        fail(format!("the file has {} bytes, the solution {}", std::fs::read(&out).unwrap().len(), want.len()));
    }
}
''')
plant('C09-buffered-write','C09',
 'a full disk while the solution is written',
 'the write goes through a buffer that is flushed when dropped, where the error is lost, so the run ends successfully without its file',
 [('src/utils/serializer.rs','''        let mut file = OpenOptions::new()''','''        let file = OpenOptions::new()'''),
  ('src/utils/serializer.rs','''        if let Some(last_entry) =''','''        let mut file = std::io::BufWriter::new(file);
        if let Some(last_entry) =''')],
 r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let inst = Inst::random(2, 10, 100, 9, 3.0);
    let mut c = cfg(2);
    c.solution_path = Some("/dev/full".into());
    let mut s = solver(&inst, c);
    for _ in 0..40 {
        step(&mut s);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| hybridcvrp::utils::write_solution_file(&s.ctx)));
    if r.is_ok() {
        fail("writing to a full disk is reported as a success".into());
    }
}
''')
WATCH = r'''
/// fails when the run makes no progress for 20 seconds
fn watched(what: String, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        fail(format!("{}: no progress or a crash", what));
    }
}
'''
plant('C10-crossover-zone','C10',
 'an instance with two or three customers, and a crossover zone that starts where no end is far enough away',
 'the crossover asks for a zone of at least three and never finds one in a tiny instance, so the run hangs',
 [(G+'genetic.rs','            if start != end {\n                break;','            // A zone of two customers changes next to nothing\n            if start != end && (end > start + 1 || start > end + 1) {\n                break;')],
 WATCH + r'''
fn main() {
    for n in 1..7usize {
        for seed in 0..4u64 {
            watched(format!("{} customers, seed {}", n, seed), move || {
                let inst = Inst::random(seed, n, 50, 9, 2.0);
                let mut s = solver(&inst, cfg(seed));
                for _ in 0..150 {
                    step(&mut s);
                }
            });
        }
    }
}
''')
plant('C10-fleet-margin','C10',
 'an instance whose demands pack badly into the vehicles, so that it needs more than the safety margin over the lower bound',
 'the fleet gets only a fifth more vehicles than the lower bound and none on top, so small instances have no feasible solution',
 [('src/solver/context.rs','(1.2 as f64 * lower_bound + 2.0).ceil() as u64','(1.2 as f64 * lower_bound).ceil() as u64')],
 r'''
fn main() {
    for n in [3usize, 4, 5, 7] {
        // every vehicle takes one customer; the lower bound is about 0.6 n
        let mut inst = Inst::random(n as u64, n, 100, 1, 1.0);
        for d in inst.d.iter_mut().skip(1) {
            *d = 6.0;
        }
        inst.cap = 10.0;
        let mut s = solver(&inst, cfg(1));
        for _ in 0..300 {
            step(&mut s);
        }
        if history(&s.ctx).0.is_empty() {
            fail(format!("no feasible solution for {} customers of demand 6 and vehicles of 10", n));
        }
    }
}
''')
