//! C27: the log of whole programs under faults of standard error, and the history of searches, compared with
//! the simulated time at which things happened.
use crate::appx::*;
use crate::ga::{base, crash};
use crate::inst::Kind;
use crate::props::*;
use crate::rng::H;
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::Metaheuristic;
use serde_json::{json, Value};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        gen,
        run,
        quick: 10000,
        thorough: 120000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x configuration x clock x (a) the program with several log levels, moments at which it is stopped and faults on standard error (short, interrupted, failing writes), its log compared with the library's improvements and their simulated times, or (b) a stepped search whose history entries and messages are compared with the simulated time around the step they were made in; non-trivial: at least one improvement was logged",
        real: REAL_APP,
        stub: STUB_APP,
    }]
}
const LEVELS: [(&str, bool); 10] = [
    ("", true),
    ("info", true),
    ("debug", true),
    ("trace", true),
    ("warn", false),
    ("error", false),
    ("off", false),
    ("hybridcvrp=debug", true),
    ("hybridcvrp::solver=trace,info", true),
    ("warn,hybridcvrp=info", true),
];
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 2 == 1 {
        let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge][(i / 2 % 4) as usize];
        let (mut r, mut s) = base("C27", seed, kind, 40);
        s.kind = "steps".into();
        if r.p(0.4) {
            s.c("max_iterations_without_improvement", json!(r.range(1, 12)));
        }
        if r.p(0.4) {
            s.env.faults.push(Fault { class: simhook::INSTANCE, op: 1, kind: simhook::K_SLOW, at: r.range(0, 2), arg: r.range(1, 3_000_000_000), count: r.range(1, 4) });
        }
        return s;
    }
    let (mut r, mut s) = app_base("C27", seed, 40);
    s.c("max_iterations", json!(r.range(3, 50)));
    let n = s.inst().n() as u64;
    s.c("decompose_limit", json!(*r.pick(&[n + 1, n + 1, 3000])));
    s.env.per_draw = *r.pick(&[1u64, 1, 7, 1000, 1_234_567]);
    s.env.per_read = 0;
    if r.p(0.4) {
        for _ in 0..r.us(1, 4) {
            let at = 10u64.pow(r.us(1, 5) as u32) * r.range(1, 10);
            s.env.events.push(Ev { on_read: false, at, jump: r.range(0, 90_000_000_000), rate: -1 });
        }
        s.env.events.sort_by_key(|x| x.at);
    }
    if r.p(0.4) {
        // the instance comes from a slow disk
        s.env.faults.push(Fault { class: simhook::INSTANCE, op: 1, kind: simhook::K_SLOW, at: r.range(0, 2), arg: r.range(1, 3_000_000_000), count: r.range(1, 4) });
    }
    if r.p(0.12) {
        let draws = r.range(1000, 60_000);
        decomposed(&mut r, &mut s, draws);
        s.env.events.clear();
    }
    let f = |kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::STDERR, op: 2, kind, at, arg, count };
    let mut subs: Vec<Value> = vec![];
    for _ in 0..r.us(1, 4) {
        let mut v = vec![];
        if r.p(0.7) {
            v.push(f(if r.p(0.5) { simhook::K_RAND } else { simhook::K_CAP }, 0, r.range(1, 40), u64::MAX));
        }
        if r.p(0.6) {
            v.push(f(simhook::K_EINTR, r.range(0, 10), 0, r.range(1, 20)));
        }
        subs.push(json!({ "faults": v, "level": r.range(0, 10) }));
    }
    for _ in 0..r.us(1, 4) {
        let e = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, libc::EBADF, libc::EFBIG]) as u64;
        subs.push(json!({"faults": [f(simhook::K_ERR, r.range(0, 1001), e, *r.pick(&[u64::MAX, u64::MAX, 1, 3]))], "scaled": true, "level": r.range(0, 4)}));
    }
    for _ in 0..r.us(1, 3) {
        subs.push(json!({"faults": [], "level": r.range(0, 10), "moment": r.range(0, 1000)}));
    }
    subs.push(json!({"faults": [], "level": r.range(1, 10)}));
    s.set("subs", json!(subs));
    s
}
/// what a line of the log says, without what is put before it
fn said(l: &str) -> &str {
    if l.starts_with('[') {
        if let Some(k) = l.find("] ") {
            return &l[k + 2..];
        }
    }
    l
}
fn bests(log: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(log).split_inclusive('\n').filter(|l| l.ends_with('\n')).map(|l| said(l.trim_end_matches('\n')).to_string()).filter(|l| l.contains(", New best: ")).collect()
}
fn run(s: &Scn) -> Out {
    if s.kind == "steps" {
        return steps(s);
    }
    let mut o = Out::default();
    let wd = workdir();
    let mut tr = H::new();
    let Some(lib) = oracle(s, &mut o) else { return o };
    std::fs::write(wd.join("inst.vrp"), s.inst().text()).expect("scratch");
    std::fs::write(wd.join("config.yml"), yaml(&s.cfg)).expect("scratch");
    let split = s.inst().n() as u64 >= s.cu("decompose_limit", 3000);
    let want: Vec<String> = lib.costs.iter().zip(&lib.stamps).map(|(c, t)| format!("Time: {:?}, New best: {:?}", Duration::from_nanos(*t), c)).collect();
    let run = |e: &Env, level: &str, budget: u64| {
        let _ = std::fs::remove_file(wd.join("output.sol"));
        let mut l = Launch::new("DST_APP", &wd, e);
        l.paths = vec![(simhook::INSTANCE, "inst.vrp".into())];
        l.args = vec!["inst.vrp".into()];
        if !level.is_empty() {
            l.extra.push(("RUST_LOG", level.into()));
        }
        l.budget = budget;
        launch(l)
    };
    let base = run(&s.env, "", s.budget);
    base.account(&mut o, &s.env);
    if !base.ok() {
        o.aborted = Some(format!("undisturbed run: {} {}", base.how(), base.tail()));
        return o;
    }
    let file = std::fs::read(wd.join("output.sol")).ok();
    if file.as_deref() != Some(lib.file.as_bytes()) {
        // not what this property is about
        o.aborted = Some("the program and the library differ".into());
        return o;
    }
    // the log of the undisturbed run
    let log = String::from_utf8_lossy(&base.stderr).into_owned();
    let lines: Vec<&str> = log.lines().map(said).collect();
    let got = bests(&base.stderr);
    let agrees = |got: &[String], want: &[String]| {
        if !split {
            return got == want;
        }
        // sub-problems log theirs in between
        let mut it = got.iter();
        want.iter().all(|w| it.any(|g| g == w))
    };
    if !agrees(&got, &want) {
        let k = (0..).find(|&k| got.get(k) != want.get(k)).unwrap();
        o.v("improvements", format!("the log has {} improvements, {} were made; the first difference: logged {:?}, made {:?}", got.len(), want.len(), got.get(k), want.get(k)));
        return o;
    }
    let done: Vec<&&str> = lines.iter().filter(|l| l.ends_with(", Completed")).collect();
    let end = format!("Time: {:?}, Completed", Duration::from_nanos(base.elapsed));
    if done.len() != 1 || *done[0] != end || lines.last() != Some(done[0]) {
        o.v("completed", format!("the run took {:?} and its log ends with {:?}", Duration::from_nanos(base.elapsed), lines.last()));
        return o;
    }
    let alg: Vec<&&str> = lines.iter().filter(|l| l.starts_with("Algorithm: ")).collect();
    let name = if split { "Algorithm: Decomposed Genetic Algorithm" } else { "Algorithm: Genetic Algorithm" };
    if alg.len() != 1 || *alg[0] != name {
        o.v("algorithm", format!("{} customers, decomposition from {} on, and the log says {:?}", s.inst().n(), s.cu("decompose_limit", 3000), alg));
        return o;
    }
    let seed = format!("Deterministic with seed: {}", s.cu("seed", 0));
    if s.cfg.contains_key("seed") && lines.iter().filter(|l| **l == seed).count() != 1 && !split {
        o.v("seed", format!("the log does not say {:?}", seed));
        return o;
    }
    if !lines.contains(&"Loading problem file: inst.vrp") {
        o.v("file", "the log does not name the instance".into());
        return o;
    }
    o.nontrivial = !want.is_empty();
    o.inc("improvements_logged", want.len() as u64);
    for b in &base.stderr {
        tr.add(*b as u64);
    }
    // what reading the instance took
    let loading = base.elapsed.saturating_sub(at_draw(&s.env, base.draws + 1));
    let subs: Vec<Value> = s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    for (k, sub) in subs.iter().enumerate() {
        let (level, shown) = LEVELS[sub["level"].as_u64().unwrap_or(0) as usize % LEVELS.len()];
        let mut faults: Vec<Fault> = serde_json::from_value(sub["faults"].clone()).unwrap_or_default();
        if sub["scaled"].as_bool() == Some(true) {
            for f in faults.iter_mut() {
                f.at = f.at * base.stderr.len() as u64 / 1000;
            }
        }
        let desc = || format!("{}: level {:?} {}", k, level, faults.iter().map(|f| format!("{} at {} arg {} x{}", f.name(), f.at, f.arg, f.count)).collect::<Vec<_>>().join(", "));
        let mut e = s.env.clone();
        e.faults.extend(faults.clone());
        let moment = sub["moment"].as_u64().map(|m| 1 + m * base.draws / 1000);
        let r = run(&e, level, moment.unwrap_or(s.budget));
        r.account(&mut o, &e);
        tr.add(r.stderr.len() as u64);
        tr.add(r.draws);
        if r.timeout || r.hang {
            o.v("hang", format!("the run did not end [{}]", desc()));
            return o;
        }
        let got = bests(&r.stderr);
        if r.code == Some(97) && moment.is_some() {
            // stopped while it searched: what it had found is in the log
            o.fault("stop_at_draw", 1);
            let sure = lib.stamps.iter().zip(&want).filter(|(t, _)| **t < loading + at_draw(&s.env, moment.unwrap())).map(|x| x.1.clone()).collect::<Vec<_>>();
            let ok = if split { agrees(&got, &sure) } else { got.len() >= sure.len() && got.len() <= want.len() && got == want[..got.len()] };
            if shown && !ok {
                o.v("late", format!("stopped at draw {}: {} improvements had been made, the log has {:?} [{}]", moment.unwrap(), sure.len(), got, desc()));
                return o;
            }
            continue;
        }
        if !r.ok() || r.draws != base.draws || r.stdout != base.stdout || std::fs::read(wd.join("output.sol")).ok() != file {
            o.v("harm", format!("the run ended with {} after {} draws instead of {}, its solution file is {} [{}] {}", r.how(), r.draws, base.draws, if std::fs::read(wd.join("output.sol")).ok() == file { "the same" } else { "another" }, desc(), r.tail()));
            return o;
        }
        let failing = faults.iter().any(|f| f.kind == simhook::K_ERR);
        if failing {
            // once it fails for good nothing more is written; in between, lines may be torn
            if !split && faults.iter().all(|f| f.count == u64::MAX) && !want.starts_with(&got) {
                o.v("improvements", format!("with failing writes the log has {:?} [{}]", got, desc()));
                return o;
            }
        } else if shown && !agrees(&got, &want) {
            o.v("improvements", format!("the log has {} improvements, {} were made [{}]", got.len(), want.len(), desc()));
            return o;
        } else if !shown && !got.is_empty() {
            o.v("level", format!("the log has {:?} [{}]", got, desc()));
            return o;
        }
    }
    tr.add(base.draws);
    o.trace = tr.0 | 1;
    o
}
/// simulated time since the start when the draw of this number is made
fn at_draw(e: &Env, k: u64) -> u64 {
    let mut t = 0u64;
    let (mut last, mut rate) = (0u64, e.per_draw);
    for ev in e.events.iter().filter(|ev| !ev.on_read) {
        if ev.at >= k {
            break;
        }
        t += (ev.at - last) * rate + ev.jump;
        last = ev.at;
        if ev.rate >= 0 {
            rate = ev.rate as u64;
        }
    }
    t + (k - 1 - last.min(k - 1)) * rate
}
fn steps(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let mut tr = H::new();
    let mut made = 0u64;
    let mut bad: Option<(&str, String)> = None;
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let (ctx, a) = context_at(s);
        let slack = Duration::from_nanos(3 * s.env.per_read);
        let mut ga = GeneticAlgorithm::new(&ctx);
        let (mut n, mut m, mut resets) = (0usize, 0usize, 0usize);
        let mut restarts = 0;
        for step in 0..s.steps {
            let t0 = Duration::from_nanos(simhook::now_ns() - a);
            let ni = ga.num_initialized;
            ga.iterate(&ctx);
            let t1 = Duration::from_nanos(simhook::now_ns() - a);
            if ni > 0 && ga.num_initialized == 0 {
                restarts += 1;
            }
            let stop = outside(|| {
                let h = ctx.search_history.borrow();
                let new = &h.entries()[n..];
                for e in new {
                    if e.timestamp + slack < t0 || e.timestamp > t1 + slack {
                        bad = Some(("time", format!("step {}, from {:?} to {:?}: an improvement to {} is recorded at {:?}", step, t0, t1, e.solution.cost, e.timestamp)));
                    }
                    tr.f(e.solution.cost);
                }
                if h.entries().windows(2).any(|w| w[0].timestamp > w[1].timestamp) {
                    bad = Some(("back", format!("step {}: recorded times fall: {:?}", step, h.entries().iter().map(|e| e.timestamp).collect::<Vec<_>>())));
                }
                let msgs = &h.messages[m..];
                for x in msgs {
                    if x.timestamp + slack < t0 || x.timestamp > t1 + slack {
                        bad = Some(("message-time", format!("step {}, from {:?} to {:?}: the message {:?} is recorded at {:?}", step, t0, t1, x.message, x.timestamp)));
                    }
                }
                let want: Vec<String> = new.iter().map(|e| format!("New best: {:.2}", e.solution.cost)).collect();
                let got: Vec<&String> = msgs.iter().map(|x| &x.message).filter(|x| x.starts_with("New best")).collect();
                if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| *a != b) {
                    bad = Some(("message", format!("step {}: messages {:?}, improvements {:?}", step, got, want)));
                }
                resets += msgs.iter().filter(|x| x.message == "Resetting").count();
                if resets != restarts {
                    bad = Some(("restart", format!("step {}: {} restarts, {} messages about them", step, restarts, resets)));
                }
                made += new.len() as u64;
                n = h.entries().len();
                m = h.messages.len();
                bad.is_some()
            });
            if stop || ga.terminated() {
                break;
            }
        }
    });
    account(&mut o, &s.env, &st);
    o.inc("improvements_recorded", made);
    if let Some((k, m)) = bad {
        o.v(k, m);
    } else if let Err(e) = res {
        crash(s, &mut o, &e, "search");
    }
    tr.add(st.draws);
    tr.add(st.elapsed_ns);
    o.trace = tr.0 | 1;
    o.nontrivial = made > 0;
    o
}
