//! The table of properties: scenario generator, runner, sizes.
use crate::scn::*;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64, u64, bool) -> Scn, // index, seed, thorough
    pub run: fn(&Scn) -> Out,
    /// runs of the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    /// crashes and hangs of a run are violations of this property
    pub crash_counts: bool,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}
pub const REAL_LIB: &[&str] = &["hybridcvrp library (parser, context, matrices, genetic search, split, local search, ruin-and-recreate, history) built from /repo's working tree"];
pub const REAL_APP: &[&str] = &["the hybridcvrp program (main.rs unmodified, library, clap, serde_yaml, kernel file system in a scratch directory)"];
pub const STUB_LIB: &[&str] = &["clock (simulated)", "operating-system entropy and hash seeds (seeded)", "fastrand (same algorithm and stream, draws counted)", "heap (guarded, seed-filled) where the scenario says so"];
pub const STUB_APP: &[&str] = &["clock (simulated)", "operating-system entropy and hash seeds (seeded)", "fastrand (same algorithm and stream, draws counted)", "open/read/write of the named files and stdout (interposed: faults, then the real call)", "malloc/calloc/realloc (interposed for injected failures)"];

pub fn table() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    #[cfg(feature = "core")]
    {
        v.extend(crate::ga::props());
        v.extend(crate::det::props());
        v.extend(crate::io::props());
        v.extend(crate::fmt::props());
        v.extend(crate::appx::props());
        v.extend(crate::logx::props());
        v.extend(crate::memx::props());
    }
    #[cfg(feature = "ls")]
    v.extend(crate::ls::props());
    #[cfg(feature = "rr")]
    v.extend(crate::rr::props());
    #[cfg(feature = "rr")]
    v.extend(crate::setx::props());
    #[cfg(feature = "rr")]
    v.extend(crate::rrx::props());
    #[cfg(feature = "dec")]
    v.extend(crate::dec::props());
    #[cfg(feature = "sel")]
    v.extend(crate::sel::props());
    #[cfg(feature = "split")]
    v.extend(crate::split::props());
    #[cfg(feature = "web")]
    v.extend(crate::web::props());
    v
}
pub fn find(id: &str) -> Option<Prop> {
    table().into_iter().find(|p| p.id == id)
}
