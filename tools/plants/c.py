GUARD = r"""
// a block behind every allocation is checked when it is freed
use std::alloc::{GlobalAlloc, Layout, System};
struct Guard;
const PAD: usize = 512;
static HIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + PAD, l.align()));
        if !p.is_null() {
            std::ptr::write_bytes(p.add(l.size()), 0xC5, PAD);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for k in 0..PAD {
            if p.add(l.size() + k).read() != 0xC5 {
                HIT.store(l.size(), std::sync::atomic::Ordering::SeqCst);
            }
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + PAD, l.align()))
    }
}
#[global_allocator]
static A: Guard = Guard;
"""
plant('C12-initial-unreported','C12',
 'a sub-search that ends before it finds a solution as good as the one it was given, e.g. at the deadline',
 'the given solution only joins the population of the sub-search and is not its first best, so a merge can make the global solution worse',
 [(G+'decomposition.rs','sub_ga.add_initial(&self.ctx, self.solution.clone());','sub_ga.add_individual(&self.ctx, self.solution.clone());')],
 r"""
fn main() {
    for seed in 0..6u64 {
        let inst = Inst::random(seed, 40, 300, 9, 5.0);
        let mut c = cfg(seed);
        let mut s = solver(&inst, c.clone());
        for _ in 0..400 {
            step(&mut s);
        }
        let (_, routes) = history(&s.ctx);
        if routes.is_empty() {
            continue;
        }
        c.decomposed_problem_min_size = 30;
        c.rr_mutation = false;
        c.time_limit = 1;
        c.initial_individuals = 1_000_000;
        c.local_search_granularity = 2;
        c.swap_star = false;
        let ctx = context(&inst, c);
        let mut global = Individual::new_random(&ctx, 0);
        global.phenotype = routes.clone();
        global.phenotype.resize(ctx.config.borrow().num_vehicles as usize, vec![]);
        global.genotype = routes.iter().flatten().copied().collect();
        global.evaluate(&ctx);
        let mut dec = hybridcvrp::solver::genetic::Decomposition::new(&mut global, &ctx);
        dec.run();
        dec.finish(&ctx);
        if inst.cost(&global.phenotype, true) > inst.cost(&routes, true) + 1e-6 {
            fail(format!("seed {}: merged cost {} after {}", seed, inst.cost(&global.phenotype, true), inst.cost(&routes, true)));
        }
    }
}
""")
plant('C12-explicit-lazy','C12',
 'a sub-problem of more than 24 nodes of an instance with an explicit matrix',
 'larger sub-problems compute their distances from coordinates even if the instance has a matrix, so the sub-search works with other distances than the global one',
 [('src/models/matrix.rs','            precomputed: true,\n            rounded: self.rounded,','            // Small matrices are kept, distances between many nodes are computed\n            precomputed: size < 25,\n            rounded: self.rounded,')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let mut inst = Inst::random(seed, 20 + seed as usize * 2, 100, 9, 4.0);
        let mut r = Rng(seed);
        inst.lower = Some((1..=inst.n()).map(|i| (0..i).map(|_| r.us(1, 200) as f64).collect()).collect());
        let ctx = context(&inst, cfg(seed));
        let mut nodes: Vec<usize> = (1..=inst.n()).collect();
        r.shuffle(&mut nodes);
        let mut map = vec![0];
        map.extend(nodes);
        let sub = ctx.from_mapping(&map);
        for i in 0..map.len() {
            for j in 0..map.len() {
                let (a, b) = (sub.matrix_provider.distance.get(i, j), inst.dist(map[i], map[j], true));
                if (a - b).abs() > 1e-9 {
                    fail(format!("seed {}: distance {} in the sub-problem, {} in the instance", seed, a, b));
                }
            }
        }
    }
}
""")
plant('C14-remaining-time','C14',
 'a clock that has moved when elite education begins (loading and the first solution took time)',
 'elite education takes its fraction of the time that is left instead of the time limit',
 [(R+'mod.rs','let duration_f64 = config.time_limit as f64 * config.elite_education_time_fraction;','let duration_f64 = (config.time_limit as f64 - ctx.elapsed_as_secs_f64()).max(0.0)\n                * config.elite_education_time_fraction;')],
 r"""
use hybridcvrp::solver::improvement::Acceptance;
fn main() {
    for seed in 0..3u64 {
        let inst = Inst::random(seed, 10, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.time_limit = 10;
        c.elite_education = true;
        c.elite_education_time_based = true;
        c.elite_education_time_fraction = 0.1;
        // the run began six seconds ago
        let parser = parse(&inst, &mut c);
        let ctx = Context::new(parser, c, std::time::Instant::now() - std::time::Duration::from_secs(6));
        let mut rr = hybridcvrp::solver::improvement::RuinRecreate::new(&ctx);
        let mut ind = random_individual(&ctx, &inst, &mut Rng(seed));
        rr.setup_elite_education(&ctx);
        rr.load(&ctx, &mut ind);
        let t = std::time::Instant::now();
        while !rr.acceptance.completed() {
            rr.search();
        }
        if t.elapsed().as_secs_f64() < 0.99 {
            fail(format!("seed {}: education ended after {:?} of 1 s", seed, t.elapsed()));
        }
    }
}
""")
plant('C14-whole-seconds','C14',
 'an education share that is not a whole number of seconds',
 'the share is cut to whole seconds, so education ends too early, at once for shares below a second',
 [(R+'mod.rs','            let duration = Duration::from_secs_f64(duration_f64);','            let duration = Duration::from_secs(duration_f64 as u64);')],
 r"""
use hybridcvrp::solver::improvement::Acceptance;
fn main() {
    for fraction in [0.02, 0.15] {
        let inst = Inst::random(1, 10, 100, 9, 3.0);
        let mut c = cfg(1);
        c.time_limit = 10;
        c.elite_education_time_based = true;
        c.elite_education_time_fraction = fraction;
        let ctx = context(&inst, c);
        let mut rr = hybridcvrp::solver::improvement::RuinRecreate::new(&ctx);
        let mut ind = random_individual(&ctx, &inst, &mut Rng(1));
        rr.setup_elite_education(&ctx);
        rr.load(&ctx, &mut ind);
        let t = std::time::Instant::now();
        while !rr.acceptance.completed() {
            rr.search();
        }
        if t.elapsed().as_secs_f64() < 10.0 * fraction - 0.01 {
            fail(format!("education ended after {:?} of {} s", t.elapsed(), 10.0 * fraction));
        }
    }
}
""")
plant('C15-kept-context','C15',
 'a solver that is moved between its steps while another one takes its place in memory',
 'local search keeps the context it was made with instead of the one it is called with, so it reads the instance of another solver',
 [(I+'local_search.rs','''            self.ctx = &*(ctx as *const Context);
            self.reset();''','''            self.reset();''')],
 r"""
fn main() {
    for seed in 0..10u64 {
        let (a, b) = (Inst::random(seed, 15, 200, 9, 3.0), Inst::random(seed + 100, 15, 90, 9, 3.0));
        let mut alone = solver(&a, cfg(seed));
        for _ in 0..60 {
            step(&mut alone);
        }
        // two solvers that change places
        let mut pair = vec![solver(&a, cfg(seed)), solver(&b, cfg(seed + 1))];
        for k in 0..120 {
            step(&mut pair[k % 2]);
            if k % 2 == 1 {
                continue;
            }
            pair.swap(0, 1);
            step(&mut pair[0]);
            pair.swap(0, 1);
        }
        let got = history(&pair[0].ctx);
        let mut alone2 = solver(&a, cfg(seed));
        for _ in 0..60 {
            step(&mut alone2);
        }
        if got != history(&alone2.ctx) || got != history(&alone.ctx) {
            fail(format!("seed {}: {:?} beside another, {:?} alone", seed, got.0, history(&alone.ctx).0));
        }
    }
}
""")
plant('C15-cached-scale','C15',
 'two solvers in a process with instances of the same size but other distances or demands',
 'the largest demand is remembered for the process by the number of customers, so the second solver starts with the penalty of the first',
 [('src/solver/context.rs','        let max_demand = self.problem.max_demand();','''        thread_local! {
            static SCALE: RefCell<std::collections::HashMap<usize, Option<f64>>> = RefCell::default();
        }
        let max_demand = SCALE.with(|scale| {
            *scale
                .borrow_mut()
                .entry(self.problem.dim())
                .or_insert_with(|| self.problem.max_demand())
        });''')],
 r"""
fn run(i: &Inst, seed: u64) -> (f64, Vec<f64>) {
    let mut s = solver(i, cfg(seed));
    for _ in 0..60 {
        step(&mut s);
    }
    let p = s.ctx.config.borrow().penalty_capacity;
    (p, history(&s.ctx).0)
}
fn main() {
    for seed in 0..10u64 {
        let a = Inst::random(seed, 15, 200, 9, 3.0);
        let mut b = a.clone();
        for d in b.d.iter_mut() {
            *d *= 40.0;
        }
        b.cap *= 40.0;
        let i = b.clone();
        let alone = std::thread::spawn(move || run(&i, seed)).join().unwrap();
        let _ = run(&a, seed);
        let after = run(&b, seed);
        if after != alone {
            fail(format!("seed {}: {:?} after another solver, {:?} alone", seed, after, alone));
        }
    }
}
""")
WRITE = r"""
// replaces libc's write for this program: standard output goes to OUT, at most CHUNK bytes at a time
use std::sync::Mutex;
static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static CHUNK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 && KEEP.load(std::sync::atomic::Ordering::SeqCst) {
        let n = n.min(CHUNK.load(std::sync::atomic::Ordering::SeqCst));
        OUT.lock().unwrap().extend_from_slice(std::slice::from_raw_parts(buf, n));
        return n as isize;
    }
    syscall(1, fd, buf, n) as isize
}
fn main() {
    use std::sync::atomic::Ordering::SeqCst;
    for seed in 0..6u64 {
        let inst = Inst::random(seed, 30, 300, 9, 4.0);
        for chunk in [usize::MAX, 16, 1000, 1] {
            OUT.lock().unwrap().clear();
            CHUNK.store(chunk, SeqCst);
            KEEP.store(true, SeqCst);
            let mut s = solver(&inst, cfg(seed));
            let mut seen = 0;
            let mut want = String::new();
            let mut bad = None;
            for k in 0..60 {
                step(&mut s);
                let h = s.ctx.search_history.borrow();
                let new = h.entries().len() - seen;
                seen += new;
                let out = String::from_utf8_lossy(&OUT.lock().unwrap()).into_owned();
                // the last solution of the step must be complete, and all others of the step too
                let costs = out.lines().filter(|l| l.starts_with("Cost ")).count();
                if costs != seen || !out[want.len().min(out.len())..].starts_with(if new > 0 { "Route #1" } else { "" }) || !(out.is_empty() || out.ends_with('\n')) {
                    bad = Some(format!("step {}: {} improvements found, {} printed in full ({} bytes)", k, seen, costs, out.len()));
                    break;
                }
                if let (true, Some(e)) = (new > 0, h.last_entry()) {
                    if !out.ends_with(&format!("{}\n", e.solution)) {
                        bad = Some(format!("step {}: the last solution is not printed as it is", k));
                        break;
                    }
                }
                want = out;
            }
            KEEP.store(false, SeqCst);
            if let Some(b) = bad {
                fail(format!("seed {}, {} bytes at a time: {}", seed, chunk, b));
            }
        }
    }
}
"""
plant('C16-raw-write','C16',
 'standard output that accepts only part of a write',
 'an improvement is written with a single call whose count is ignored, so the rest of it is lost',
 [('src/solver/history.rs','                println!("{}", history_entry.solution);','                // One call for the whole solution keeps it in one piece\n                let text = format!("{}\\n", history_entry.solution);\n                let mut out = std::mem::ManuallyDrop::new(unsafe {\n                    <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(1)\n                });\n                let _ = std::io::Write::write(&mut *out, text.as_bytes());')],
 WRITE, 'dimacs')
plant('C16-throttled','C16',
 'two improvements within the same millisecond',
 'an improvement that follows another within a millisecond is not printed',
 [('src/solver/history.rs','            if self.log_new_best {','            let last = self.history.last().map(|entry| entry.timestamp);\n            if self.log_new_best && last.map_or(true, |last| timestamp - last >= Duration::from_millis(1)) {')],
 WRITE, 'dimacs')
