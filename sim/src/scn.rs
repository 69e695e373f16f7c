//! A scenario is everything one simulated run depends on; running it is a pure function of it.
use crate::inst::Inst;
use crate::rng::R;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct Ev {
    #[serde(default)]
    pub on_read: bool,
    pub at: u64,
    pub jump: u64,
    pub rate: i64,
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Fault {
    pub class: u8,
    pub op: u8,
    pub kind: u8,
    pub at: u64,
    pub arg: u64,
    pub count: u64,
}
impl Fault {
    pub fn name(&self) -> String {
        let c = ["instance", "config", "output", "stdout", "stderr"][(self.class as usize).min(4)];
        let o = ["open", "read", "write"][(self.op as usize).min(2)];
        let k = match self.kind {
            0 | 5 => "short",
            1 => "interrupted",
            2 => match self.arg as i32 {
                libc::ENOSPC => "disk_full",
                libc::EACCES => "denied",
                libc::ENOENT => "missing",
                libc::EISDIR => "is_directory",
                _ => "io_error",
            },
            3 => "early_eof",
            6 => "slow",
            _ => "kill",
        };
        format!("{}_{}_{}", c, o, k)
    }
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Env {
    pub seed: u64,
    pub per_draw: u64,
    pub per_read: u64,
    #[serde(default)]
    pub events: Vec<Ev>,
    /// 0: plain heap, otherwise guarded heap filled from this seed
    #[serde(default)]
    pub heap: u64,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub base: u64,
}
impl Default for Env {
    fn default() -> Self {
        Env { seed: 1, per_draw: 1000, per_read: 50, events: vec![], heap: 0, faults: vec![], base: 1_000_000_000_000 }
    }
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Scn {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inst: Option<Inst>,
    #[serde(default)]
    pub cfg: Map<String, Value>,
    #[serde(default)]
    pub env: Env,
    /// second environment (paired runs)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub env2: Option<Env>,
    pub steps: u64,
    pub budget: u64,
    /// property-specific operations and parameters
    #[serde(default)]
    pub par: Map<String, Value>,
}
impl Scn {
    pub fn new(prop: &str, kind: &str, seed: u64) -> Scn {
        Scn { prop: prop.into(), kind: kind.into(), seed, inst: None, cfg: Map::new(), env: Env::default(), env2: None, steps: 60, budget: 40_000_000, par: Map::new() }
    }
    pub fn inst(&self) -> &Inst {
        self.inst.as_ref().expect("scenario without instance")
    }
    pub fn u(&self, k: &str) -> u64 {
        self.par.get(k).and_then(|v| v.as_u64()).unwrap_or(0)
    }
    pub fn fl(&self, k: &str) -> f64 {
        self.par.get(k).and_then(|v| v.as_f64()).unwrap_or(0.0)
    }
    pub fn b(&self, k: &str) -> bool {
        self.par.get(k).and_then(|v| v.as_bool()).unwrap_or(false)
    }
    pub fn set(&mut self, k: &str, v: Value) {
        self.par.insert(k.into(), v);
    }
    pub fn c(&mut self, k: &str, v: Value) {
        self.cfg.insert(k.into(), v);
    }
    pub fn cu(&self, k: &str, d: u64) -> u64 {
        self.cfg.get(k).and_then(|v| v.as_u64()).unwrap_or(d)
    }
    pub fn cf(&self, k: &str, d: f64) -> f64 {
        self.cfg.get(k).and_then(|v| v.as_f64()).unwrap_or(d)
    }
    pub fn cb(&self, k: &str, d: bool) -> bool {
        self.cfg.get(k).and_then(|v| v.as_bool()).unwrap_or(d)
    }
    pub fn rounded(&self) -> bool {
        self.cb("round_distances", true)
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Viol {
    /// stable identity of what went wrong (used for shrinking and known findings)
    pub key: String,
    pub msg: String,
}
#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct Out {
    #[serde(default)]
    pub viol: Option<Viol>,
    /// the run stopped for a reason that belongs to another property
    #[serde(default)]
    pub aborted: Option<String>,
    pub nontrivial: bool,
    pub trace: u64,
    pub runs: u64,
    pub sim_ns: u64,
    pub draws: u64,
    #[serde(default)]
    pub faults: BTreeMap<String, u64>,
    #[serde(default)]
    pub count: BTreeMap<String, u64>,
    #[serde(default)]
    pub seed: u64,
}
impl Out {
    pub fn v(&mut self, key: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some(Viol { key: key.into(), msg });
        }
    }
    /// add what a part of the run, made elsewhere, found and did
    pub fn absorb(&mut self, p: &Out) {
        if self.viol.is_none() {
            self.viol = p.viol.clone();
        }
        if self.aborted.is_none() {
            self.aborted = p.aborted.clone();
        }
        self.nontrivial |= p.nontrivial;
        self.trace ^= p.trace;
        self.runs += p.runs;
        self.sim_ns += p.sim_ns;
        self.draws += p.draws;
        for (k, v) in &p.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &p.count {
            *self.count.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn inc(&mut self, k: &str, n: u64) {
        *self.count.entry(k.into()).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_insert(0) += n;
        }
    }
}

/// Random configuration ("swarm": every run uses another mix of parameters and features).
pub fn gen_cfg(r: &mut R, s: &mut Scn, n: usize) {
    let mut c = Map::new();
    let mut put = |k: &str, v: Value| {
        c.insert(k.to_string(), v);
    };
    put("time_limit", json!(1_000_000u64));
    put("deterministic", json!(r.p(0.7)));
    put("seed", json!(r.range(0, 1_000_000)));
    put("round_distances", json!(r.p(0.7)));
    if r.p(0.25) {
        put("precompute_distance_size_limit", json!(r.range(0, n as u64 + 1)));
    }
    let mp = r.range(2, 12);
    put("min_population_size", json!(mp));
    put("population_lambda", json!(r.range(1, 10)));
    put("initial_individuals", json!(r.range(1, 15)));
    put("num_elites", json!(r.range(1, 5)));
    put("num_diversity_closest", json!(r.range(1, 6)));
    put("tournament_size", json!(r.range(1, 4)));
    put("repair_probability", json!(*r.pick(&[0.0, 0.5, 0.5, 1.0])));
    put("feasibility_proportion_target", json!(*r.pick(&[0.2, 0.2, 0.5, 0.9, 0.0])));
    put("penalty_update_interval", json!(*r.pick(&[1u64, 3, 10, 10])));
    if r.p(0.25) {
        put("penalty_inc_multiplier", json!(*r.pick(&[1.2, 1.5, 3.0])));
        put("penalty_dec_multiplier", json!(*r.pick(&[0.85, 0.5, 0.95])));
    }
    if r.p(0.25) {
        put("linear_split", json!(false));
    }
    put("split_capacity_factor", json!(*r.pick(&[1.5, 1.5, 1.0, 2.0, 3.0])));
    put("local_search_granularity", json!(*r.pick(&[20u64, 20, 10, 5, 3, 1, 40])));
    if r.p(0.35) {
        for k in ["relocate_single", "relocate_double", "relocate_double_reverse", "swap_one_with_one", "swap_two_with_one", "swap_two_with_two", "two_opt_intra_reverse", "two_opt_inter_reverse", "two_opt_inter", "swap_star"] {
            put(k, json!(r.p(0.5)));
        }
    } else if r.p(0.4) {
        put("relocate_double_reverse", json!(true));
    }
    if r.p(0.1) {
        put("ls_enabled", json!(false));
    }
    if r.p(0.3) {
        put("rr_mutation", json!(false));
    }
    put("rr_probability", json!(*r.pick(&[1.0, 0.5, 0.1])));
    put("rr_gamma", json!(*r.pick(&[1.0, 0.3, 2.0])));
    put("rr_start_temp", json!(*r.pick(&[10.0, 1.0, 100.0])));
    put("average_ruin_cardinality", json!(r.range(1, 15)));
    put("max_ruin_string_length", json!(r.range(1, 12)));
    if r.p(0.3) {
        put("elite_education", json!(true));
        put("elite_education_problem_size_limit", json!(r.range(0, 3)));
        put("elite_education_gamma", json!(*r.pick(&[1.0, 5.0, 40.0])));
        put("elite_education_start_temp", json!(*r.pick(&[50.0, 5.0])));
    }
    if r.p(0.4) {
        put("max_iterations_without_improvement", json!(r.range(0, 20)));
    }
    s.cfg = c;
}
