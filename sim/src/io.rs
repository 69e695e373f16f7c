//! C07: reading an instance under I/O faults.
use crate::inst::{self, Inst, Kind};
use crate::props::*;
use crate::rng::{mix, H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        gen,
        run,
        quick: 12000,
        thorough: 120000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance text (size, section order, blanks, number formats) read once undisturbed and then under a seed-chosen batch of read faults: random or fixed short reads, interrupted calls, a read error at any byte, an early end of file at any byte, denied or vanishing files; a twentieth of the scenarios do the same to the whole program; non-trivial: at least one injected fault fired",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
pub fn wide_inst(r: &mut R, big: bool) -> Inst {
    let n = if big { r.us(100, 900) } else { *r.pick(&[1usize, 2, 3, 5, 8, 12, 20, 40, 80]) };
    let rounded = r.p(0.5);
    let kind = *r.pick(&[Kind::Any, Kind::Edge, Kind::Feasible]);
    let mut i = inst::gen(r, n, kind, rounded);
    if i.lower.is_none() && n <= 120 && r.p(0.3) {
        let m = i.xy.len();
        i.lower = Some((1..m).map(|a| (0..a).map(|_| r.us(0, 300) as f64 * if r.p(0.2) { 0.25 } else { 1.0 }).collect()).collect());
    }
    // numbers of many lengths and forms
    if r.p(0.3) {
        let q = *r.pick(&[0.125, 1e-3, 12345.678, 1e5]);
        for p in i.xy.iter_mut() {
            p.0 *= q;
            p.1 *= q;
        }
    }
    i
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 20 == 7 {
        return crate::appx::gen_c07(seed);
    }
    let mut r = R::new(seed);
    let mut s = Scn::new("C07", "parse", seed);
    let big = i % 12 == 3;
    s.inst = Some(wide_inst(&mut r, big));
    s.c("round_distances", json!(r.p(0.5)));
    if r.p(0.3) {
        s.c("precompute_distance_size_limit", json!(r.range(0, 20)));
    }
    let text = s.inst().text();
    let len = text.len() as u64;
    // batches of faults; each batch is one load
    let mut subs: Vec<Vec<Fault>> = vec![];
    let f = |op: u8, kind: u8, at: u64, arg: u64, count: u64| Fault { class: simhook::INSTANCE, op, kind, at, arg, count };
    let chunk = |r: &mut R| -> Fault {
        let max = *r.pick(&[1u64, 2, 3, 7, 16, 64, 100, 512, 1000, 4096]);
        if r.p(0.5) {
            f(1, simhook::K_RAND, 0, max, u64::MAX)
        } else {
            f(1, simhook::K_CAP, r.range(0, 3), max, u64::MAX)
        }
    };
    let place = |r: &mut R| -> u64 {
        match r.us(0, 10) {
            // ends of lines and records are the interesting places
            0..=4 => {
                let ends: Vec<usize> = text.match_indices('\n').map(|(p, _)| p).collect();
                let e = *r.pick(&ends) as u64;
                e + r.range(0, 3)
            }
            5 => len - r.range(0, 40).min(len),
            6 => r.range(0, 4) * 4096 % len.max(1),
            _ => r.range(0, len + 1),
        }
    };
    for _ in 0..r.us(2, 5) {
        let mut v = vec![];
        if r.p(0.8) {
            v.push(chunk(&mut r));
        }
        if r.p(0.5) {
            v.push(f(1, simhook::K_EINTR, r.range(0, 10), 0, r.range(1, 20)));
        }
        if r.p(0.1) {
            v.push(f(0, simhook::K_EINTR, 0, 0, r.range(1, 3)));
        }
        subs.push(v);
    }
    for _ in 0..r.us(3, 8) {
        let mut v = vec![];
        if r.p(0.4) {
            v.push(chunk(&mut r));
        }
        if r.p(0.2) {
            v.push(f(1, simhook::K_EINTR, r.range(0, 10), 0, r.range(1, 5)));
        }
        v.push(f(1, simhook::K_EOF, place(&mut r), 0, 1));
        subs.push(v);
    }
    for _ in 0..r.us(2, 5) {
        let mut v = vec![];
        if r.p(0.4) {
            v.push(chunk(&mut r));
        }
        let e = *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EISDIR, libc::EAGAIN, libc::EINVAL]) as u64;
        v.push(f(1, simhook::K_ERR, place(&mut r), e, *r.pick(&[1u64, 2, u64::MAX, u64::MAX])));
        subs.push(v);
    }
    if r.p(0.3) {
        subs.push(vec![f(0, simhook::K_ERR, 0, *r.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO]) as u64, u64::MAX)]);
    }
    s.set("subs", serde_json::to_value(&subs).unwrap());
    s.env.seed = r.u64();
    if r.p(0.1) {
        s.env.heap = r.u64() | 1;
    }
    s
}
/// (start of the last announced record's last token, its end)
pub fn needed(inst: &Inst, text: &str) -> (u64, u64) {
    let mut last = 0usize;
    let mut pos = 0usize;
    let m = inst.xy.len();
    let mut left = 0usize;
    for line in text.split('\n') {
        let t = line.trim();
        if left > 0 {
            left -= 1;
            last = pos;
        } else if t == "NODE_COORD_SECTION" || t == "DEMAND_SECTION" {
            left = m;
        } else if t == "EDGE_WEIGHT_SECTION" {
            left = m - 1;
        }
        pos += line.len() + 1;
    }
    let line = text[last..].split('\n').next().unwrap();
    let trimmed = line.trim_end();
    let tok = trimmed.rfind(|c| c == ' ' || c == '\t').map(|x| x + 1).unwrap_or(0);
    ((last + tok) as u64, (last + trimmed.len()) as u64)
}
/// None: equal
pub fn differs(inst: &Inst, p: &ProblemParser) -> Option<String> {
    let pr = match &p.problem {
        Some(p) => p,
        None => return Some("no problem was loaded".into()),
    };
    if pr.dim() != inst.xy.len() || pr.nodes.len() != inst.xy.len() {
        return Some(format!("{} nodes instead of {}", pr.nodes.len(), inst.xy.len()));
    }
    if pr.vehicle.cap != inst.cap {
        return Some(format!("capacity {} instead of {}", pr.vehicle.cap, inst.cap));
    }
    for (i, n) in pr.nodes.iter().enumerate() {
        if n.demand != inst.d[i] || n.coord.lng != inst.xy[i].0 || n.coord.lat != inst.xy[i].1 {
            return Some(format!("node {} is at ({}, {}) with demand {} instead of {:?}, {}", i, n.coord.lng, n.coord.lat, n.demand, inst.xy[i], inst.d[i]));
        }
    }
    if p.matrix != inst.lower {
        return Some("the edge weights differ".into());
    }
    None
}
fn run(s: &Scn) -> Out {
    if s.kind == "app7" {
        return crate::appx::run_c07(s);
    }
    let mut o = Out::default();
    let inst = s.inst();
    let path = write_instance(s);
    let text = inst.text();
    let (lo, hi) = needed(inst, &text);
    let mut subs: Vec<Vec<Fault>> = serde_json::from_value(s.par.get("subs").cloned().unwrap_or(json!([]))).unwrap_or_default();
    subs.insert(0, vec![]);
    let mut tr = H::new();
    let rounded = s.rounded();
    for (k, faults) in subs.iter().enumerate() {
        let mut e = s.env.clone();
        e.seed = mix(e.seed, k as u64);
        e.faults = faults.clone();
        let mut verdict: Option<String> = None;
        let (res, st) = under(&e, 1_000_000, &[(simhook::INSTANCE, path.to_string_lossy().into())], || {
            let mut cfg = config(s);
            cfg.instance_path = path.to_string_lossy().into_owned();
            let start = instant::Instant::now();
            let mut parser = ProblemParser::new();
            parser.parse(&mut cfg);
            outside(|| verdict = differs(inst, &parser));
            if verdict.is_none() && (k == 0 || inst.n() <= 40) {
                // and what the search sees of it
                let ctx = Context::new(parser, cfg, start);
                outside(|| {
                    let m = inst.xy.len();
                    for i in 0..m {
                        for j in 0..m {
                            if m > 60 && (i + j * 7) % 11 != 0 {
                                continue;
                            }
                            let (x, want) = (ctx.matrix_provider.distance.get(i, j), inst.dist(i, j, rounded));
                            if (x - want).abs() > inst.tol_cost(want) && verdict.is_none() {
                                verdict = Some(format!("distance {} -> {} is {} instead of {}", i, j, x, want));
                            }
                        }
                    }
                    drop(ctx);
                });
            }
        });
        account(&mut o, &e, &st);
        let mut err = false;
        let mut cut: Option<u64> = None;
        for (i, f) in faults.iter().enumerate() {
            if st.fired[i] > 0 {
                o.nontrivial = true;
                match f.kind {
                    simhook::K_ERR => err = true,
                    simhook::K_EOF => cut = Some(f.at),
                    _ => {}
                }
            }
        }
        let desc = || faults.iter().map(|f| format!("{} at {} arg {} count {}", f.name(), f.at, f.arg, f.count)).collect::<Vec<_>>().join(", ");
        tr.add(st.io_calls[1]);
        if st.hang {
            o.v("hang", format!("the load kept reading a failing file [{}]", desc()));
            break;
        }
        let ok = match &res {
            Ok(()) => true,
            Err(End::Budget) => {
                o.aborted = Some("harness: budget in parser".into());
                break;
            }
            Err(_) => false,
        };
        tr.add(ok as u64 + 2 * err as u64);
        o.inc(if ok { "loads_that_succeeded" } else { "loads_that_failed" }, 1);
        if let (true, Some(d)) = (ok, &verdict) {
            // inside its last number a cut cannot be told from a shorter file
            if cut.map_or(false, |c| c > lo && c < hi) {
                o.inc("ambiguous_cuts", 1);
                continue;
            }
            o.v("different", format!("the load succeeded with another problem: {} [{}]", d, desc()));
            break;
        }
        if ok && err {
            o.v("error-ignored", format!("a read failed but the load succeeded [{}]", desc()));
            break;
        }
        if ok && cut.map_or(false, |c| c <= lo) {
            o.v("cut-ignored", format!("the file ended at byte {} of {} but the load succeeded [{}]", cut.unwrap(), text.len(), desc()));
            break;
        }
        if !ok && !err && cut.is_none() && !faults.iter().any(|f| f.kind == simhook::K_ERR) {
            let m = if let Err(End::Panic(m)) = res { m } else { String::new() };
            o.v("spurious", format!("the intact file was refused: {} [{}]", m, desc()));
            break;
        }
    }
    tr.add(text.len() as u64);
    o.trace = tr.0 | 1;
    o
}
