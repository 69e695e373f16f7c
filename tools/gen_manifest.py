#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
claimed = {
    "C01": ("seeded search over schedules, clocks and configurations; every reported solution judged when it is reported", "sampled instances of 1-80 customers and sampled configurations"),
    "C02": ("seeded search over metrics, precomputation and search phases; cost recomputed by a reference model", "sampled; exact up to floating-point summation order"),
    "C03": ("seeded search with restarts, education and penalty changes forced; held solutions compared with the best at every step", "sampled; held solutions are seen at step boundaries and before each ruin"),
    "C04": ("deadline placed anywhere by simulated clock rates, jumps and stalls, on draws or on clock reads", "sampled deadlines and clocks"),
    "C05": ("counter model stepped beside the search", "sampled; generations whose improvement is within the solver's epsilon are not judged"),
    "C10": ("edge instances x configurations run to their budget under a draw budget and a processor-time watchdog", "no progress = 60 million draws or 40 s of processor time without end"),
    "C14": ("simulated clock crosses the education's share at sampled moments", "sampled clocks, fractions and limits"),
    "C17": ("population invariants checked after every step", "sampled"),
    "C18": ("reference controller stepped beside the search", "sampled"),
}
claimed.update({
    "C06": ("paired runs of one scenario in different environments (clock, entropy, hash keys, heap contents, I/O chunks), histories compared", "sampled pairs"),
    "C07": ("read faults (short, interrupted, failing, early end) injected at seed-chosen bytes, library and whole program", "sampled faults; a cut inside the last number is not distinguishable from a shorter file and not judged"),
    "C08": ("whole program in simulated time under sampled option and key combinations and read faults on config.yml", "sampled combinations; each setting judged by an effect on the simulated run"),
    "C09": ("write faults and kills injected at seed-chosen operations of the whole program", "sampled faults"),
    "C11": ("guarded seed-filled heap, paired runs under different heap contents, injected allocation failures", "sampled; allocations of the YAML library while it reads config.yml are not failed"),
    "C12": ("decomposition stepped and merged, whole decomposed runs with deadlines in the sub-search", "sampled"),
    "C13": ("every local search, ruin and recreate call of seeded runs compared with a reference model", "sampled"),
    "C15": ("seeded interleavings of several solvers with moves and drops, compared with solo runs", "sampled interleavings"),
    "C16": ("contest build of the whole program, short writes, interruptions and kills at seed-chosen bytes of standard output", "sampled faults"),
    "C23": ("the contest script and the program it starts as simulated processes, under sampled arguments, write faults and kills", "sampled"),
    "C19": ("seeded call histories on one local search, results compared with brute-force evaluation of all moves", "sampled"),
    "C20": ("seeded call histories on one splitter, results compared with dynamic programming and a fresh splitter", "sampled"),
    "C24": ("whole seeded searches watched at every move, ruin and recreate; counts and shares compared with the settings", "sampled; shares within bounds that no correct run leaves with probability above e^-25"),
    "C25": ("population read after every step of seeded searches and compared with a reference model of fitness, survival, crossover and tournaments", "sampled; equal distances may be ranked in any order; shares within bounds as for C24"),
    "C26": ("every ruin and recreate of seeded ruin-and-recreate searches explained by a seed customer, strings and an insertion order in a reference model; shares compared with their distribution", "sampled; shares within bounds as for C24; ties of the solver's epsilon may be broken in any way"),
    "C27": ("whole program under sampled clocks, log levels, stops and write faults on standard error, its log compared with the library's improvements and their simulated times; history read after every step", "sampled; lines torn by failing writes are not judged"),
    "C28": ("whole searches of many steps under an allocator that counts what they hold after every step and after the drop", "sampled; the bound is about twice what searches have been seen to need"),
    "C22": ("seeded call histories on several solvers of the browser interface under simulated clock and entropy, each step compared with the library driven by the same history", "sampled; built natively with stand-ins for wasm-bindgen, js-sys and console_error_panic_hook"),
    "C21": ("seeded texts of a problem under simulated delivery, compared with the problem", "sampled texts"),
})
na = {
}
extra = {}
p = os.path.join(here, "tools", "claims.json")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash ./build.sh dimacs web", "checks": [], "not_applicable": []}
for i in ids:
    if i in claimed:
        t, n = claimed[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "bash ./check.sh %s quick" % i, "thorough_cmd": "bash ./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T + t,
                            "level": claimed[i][2] if len(claimed[i]) > 2 else "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check still being built")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
