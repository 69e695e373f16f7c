//! Whole decomposed runs (the algorithm large instances get), stepped under the simulator.
use crate::ga::{crash, HistWatch};
use crate::inst::{self, Kind};
use crate::rng::{H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::DecomposedGeneticAlgorithm;
use hybridcvrp::solver::Metaheuristic;
use serde_json::json;

/// a decomposed run of a small instance: a run of this kind makes 1e5 moves before its first
/// decomposition, so the moves are kept cheap and the deadline is placed around the interesting spots
pub fn gen(prop: &str, seed: u64) -> Scn {
    let mut r = R::new(seed ^ 0xdec0);
    let mut s = Scn::new(prop, "dec", seed);
    let n = match r.us(0, 6) {
        0 => r.us(1, 3),
        1 | 2 | 3 => r.us(3, 12),
        4 => r.us(10, 25),
        _ => r.us(4, 9),
    };
    let mut b = R::new(seed ^ 0xB16);
    let big = crate::ga::is_big(&mut b, 5);
    let n = if big { *b.pick(&[30usize, 60, 120, 202, 260]) } else { n };
    gen_cfg(&mut r, &mut s, n);
    s.cfg.remove("elite_education");
    let rounded = s.rounded();
    let kind = *r.pick(&[Kind::Any, Kind::Feasible, Kind::Tight, Kind::Loose, Kind::Feasible, Kind::Edge]);
    s.inst = Some(inst::gen(&mut r, n, kind, rounded));
    s.c("decomposed_problem_min_size", json!(*r.pick(&[1u64, 2, 3, 5, 8, 200])));
    s.c("average_ruin_cardinality", json!(r.range(1, 4)));
    s.c("max_ruin_string_length", json!(r.range(1, 4)));
    s.c("rr_gamma", json!(*r.pick(&[0.3, 1.0, 1.0])));
    let limit = *r.pick(&[1u64, 1, 2, 5, 0]);
    s.c("time_limit", json!(limit));
    let draws = match r.us(0, 4) {
        0 => 10u64.pow(r.us(1, 6) as u32) * r.range(1, 10),
        1 | 2 => r.range(1_000_000, 12_000_000),
        _ => r.range(300_000, 30_000_000),
    };
    let draws = if big && b.p(0.8) { b.range(1_000_000, 30_000_000) } else { draws };
    let lim = limit * 1_000_000_000;
    match r.us(0, 3) {
        0 => {
            s.env.per_draw = (lim / draws).max(1);
            s.env.per_read = *r.pick(&[0u64, 50]);
        }
        1 => {
            s.env.per_draw = 1;
            s.env.per_read = 0;
            s.env.events.push(Ev { on_read: false, at: draws, jump: lim + r.range(0, 2_000_000_000), rate: -1 });
        }
        _ => {
            // almost there, then a crawl across the deadline
            s.env.per_draw = 0;
            s.env.per_read = 0;
            s.env.events.push(Ev { on_read: false, at: draws, jump: lim.saturating_sub(r.range(1, 100_000)), rate: r.range(1, 4) as i64 });
        }
    }
    s.env.seed = r.u64();
    if r.p(0.05) {
        s.env.heap = r.u64() | 1;
    }
    s.steps = 300;
    s.budget = 400_000_000;
    s
}
/// random draws a run may make after its deadline: one education (local search, a mutation run) and
/// one batch of a thousand moves
pub fn late_bound(s: &Scn) -> u64 {
    let n = s.inst().n() as u64;
    let routes = (1.2 * s.inst().lower_bound() as f64 + 3.0) as u64;
    let card = s.cu("average_ruin_cardinality", 10);
    let len = s.cu("max_ruin_string_length", 10);
    let removed = (4 * card + 2 * len).min(n);
    let per_move = (removed + 2) * (n + routes + 4) + 20;
    let mutation = (s.cf("rr_gamma", 1.0) * n as f64) as u64 + 1;
    ((1000 + 3 * mutation) * per_move + 40 * n * n) / 4 + 20_000
}

pub fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let mut w = HistWatch::new(s.inst(), s.rounded());
    let limit_ns = s.cu("time_limit", 60).saturating_mul(1_000_000_000);
    let bound = late_bound(s);
    let mut iterations = 0u64;
    let mut tr = H::new();
    let mut late = 0;
    let mut ended = false;
    let (r, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let (ctx, t0) = context_at(s);
        simhook::set_mark(t0 + limit_ns);
        let mut ga = DecomposedGeneticAlgorithm::new(&ctx);
        loop {
            let (d0, now0, h0) = (simhook::draws(), simhook::now_ns(), w.seen);
            ga.iterate(&ctx);
            let stop = outside(|| {
                let now = simhook::now_ns();
                let term = ga.terminated();
                w.look(&ctx, &format!("step {} of a decomposed run", iterations));
                late = late.max(simhook::late_draws());
                if now0 - t0 >= limit_ns && (!term || simhook::draws() != d0 || w.seen != h0) {
                    w.found.v("C04", "work-after-limit", format!("decomposed: a step started {} ns after the limit did {} draws", now0 - t0 - limit_ns, simhook::draws() - d0));
                }
                if late > bound {
                    w.found.v("C04", "decomposed-late", format!("a decomposed run made {} random draws after its deadline; one education and a thousand moves are at most {}", late, bound));
                }
                if term && now - t0 < limit_ns {
                    w.found.v("C04", "early-end", format!("a decomposed run ended {} ns after its start; the limit is {} ns", now - t0, limit_ns));
                }
                if limit_ns == 0 && w.seen > 0 {
                    w.found.v("C04", "zero-limit", "a decomposed run with limit zero reported a solution".into());
                }
                iterations += 1;
                tr.add(simhook::draws());
                ended = term;
                term || iterations >= s.steps || w.found.take(&s.prop).is_some()
            });
            if stop {
                break;
            }
        }
        drop(ga);
        outside(|| drop(ctx));
    });
    account(&mut o, &s.env, &st);
    if let Err(e) = r {
        crash(s, &mut o, &e, "a decomposed run");
    }
    if o.viol.is_none() {
        o.viol = w.found.take(&s.prop);
    }
    o.inc("decomposed_runs", 1);
    o.inc("decompositions", iterations.saturating_sub(2));
    o.inc("reported_solutions", w.seen as u64);
    if ended {
        o.inc("ended_by_itself", 1);
    }
    if late > 0 {
        o.inc(&format!("late_draws_{}_percent_of_bound", late * 20 / bound * 5), 1);
    }
    o.nontrivial = match s.prop.as_str() {
        "C12" => iterations > 2,
        "C04" => ended,
        "C10" => true,
        _ => w.seen > 0,
    };
    let mut t = w.trace;
    t.add(tr.0);
    t.add(st.draws);
    o.trace = t.0 | 1;
    o
}
