//! C28: memory in use by long searches, and what is left when they are dropped.
use crate::ga::{base, crash};
use crate::heap;
use crate::inst::Kind;
use crate::props::*;
use crate::rng::H;
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::Metaheuristic;
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        gen,
        run,
        quick: 3000,
        thorough: 40000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = instance x configuration (small populations, frequent restarts, many improvements) x clock x a whole search, plain for up to 30000 steps or decomposed; the bytes it holds are counted by the allocator after every step and compared with what its largest population and one note per improvement and restart need, and must be zero when it has been dropped; non-trivial: more than ten steps",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    if i % 32 == 31 {
        let mut s = crate::drun::gen("C28", seed);
        s.kind = "decomposed".into();
        return s;
    }
    let kind = [Kind::Any, Kind::Tight, Kind::Feasible, Kind::Edge, Kind::Feasible][(i % 5) as usize];
    let size = [16, 5, 70, 5, 30, 5, 16, 5][(i % 8) as usize];
    let (mut r, mut s) = base("C28", seed, kind, size);
    s.kind = "search".into();
    let few = size == 70 || r.p(0.4);
    s.c("min_population_size", json!(if few { r.range(1, 2) } else { r.range(1, 10) }));
    s.c("population_lambda", json!(if few { r.range(1, 2) } else { r.range(1, 12) }));
    s.c("initial_individuals", json!(r.range(1, 12)));
    s.c("max_iterations_without_improvement", json!(*r.pick(&[1u64, 5, 20, 100, 1000, 20000])));
    s.c("rr_gamma", json!(*r.pick(&[0.0, 0.3, 1.0])));
    s.cfg.remove("max_iterations");
    if size == 70 && r.p(0.6) {
        // many improvements
        s.c("elite_education", json!(true));
        s.c("elite_education_problem_size_limit", json!(0));
        s.c("elite_education_gamma", json!(40.0));
        s.c("elite_education_time_based", json!(false));
    }
    s.steps = match size {
        5 => r.range(3000, 20000),
        70 => r.range(20, 60),
        _ => r.range(300, 1500),
    };
    s
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let path = write_instance(s);
    let mut tr = H::new();
    let dec = s.kind == "decomposed";
    // what the libraries keep for the thread and the process
    std::hint::black_box(std::thread::current().id());
    std::hint::black_box(ahash::RandomState::new());
    let zero = heap::live();
    let n = s.inst().n() as i64;
    let pop = (s.cu("min_population_size", 25) + s.cu("population_lambda", 40)) as i64 + 2;
    let mut bad: Option<String> = None;
    let (mut steps, mut notes, mut most) = (0u64, 0usize, 0f64);
    let (res, st) = under(&s.env, s.budget, &[(0, path.to_string_lossy().into())], || {
        let ctx = context(s);
        let mut a = if dec { None } else { Some(GeneticAlgorithm::new(&ctx)) };
        let mut b = if dec { Some(DecomposedGeneticAlgorithm::new(&ctx)) } else { None };
        let start = heap::live() - zero;
        for step in 0..s.steps {
            let end = match (&mut a, &mut b) {
                (Some(g), _) => {
                    g.iterate(&ctx);
                    g.terminated()
                }
                (_, Some(g)) => {
                    g.iterate(&ctx);
                    g.terminated()
                }
                _ => true,
            };
            let stop = outside(|| {
                steps += 1;
                let m = ctx.config.borrow().num_vehicles as i64;
                // a solution with its routes, their evaluation and its distances from the others
                let one = 320 + 24 * n + 72 * m + 32 * m.min(n) + 32 * pop;
                let h = ctx.search_history.borrow();
                notes = h.entries().len() + h.messages.len();
                let allowed = (2 * pop + 6) * one + 64 * n + 2048 + 128 * notes as i64;
                let used = heap::live() - zero - start;
                most = most.max(used as f64 / allowed as f64);
                if used > allowed {
                    bad = Some(format!("after {} steps the search holds {} bytes more than at its start, its largest population and its {} notes need {}", step + 1, used, notes, allowed));
                }
                if step % 64 == 0 {
                    tr.add(used as u64);
                }
                bad.is_some()
            });
            if end || stop {
                break;
            }
        }
        if s.seed % 2 == 0 {
            drop(a);
            drop(b);
        }
    });
    let left = heap::live() - zero;
    account(&mut o, &s.env, &st);
    if let Err(e) = res {
        crash(s, &mut o, &e, "search");
    } else if let Some(m) = bad {
        o.v("grows", m);
    } else if left != 0 {
        o.v("left", format!("after {} steps and {} notes the search is dropped and {} bytes are not given back", steps, notes, left));
    }
    o.inc("steps", steps);
    o.inc("notes", notes as u64);
    o.inc("most_of_the_bound_in_percent_summed", (most * 100.0).max(0.0) as u64);
    tr.add(st.draws);
    o.trace = tr.0 | 1;
    o.nontrivial = steps > 10;
    o
}
