//! C21: what an intact instance text means, however it is laid out and delivered.
use crate::inst::Inst;
use crate::props::*;
use crate::rng::{mix, H, R};
use crate::run::*;
use crate::scn::*;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        gen,
        run,
        quick: 24000,
        thorough: 300000,
        crash_counts: false,
        level: "exploration",
        rule: "a scenario = one problem and a seed-chosen batch of texts of it (order of header lines and sections, blanks, tabs, colons, line ends, number forms, additional header lines and trailing sections), each delivered under random short reads and interrupted calls, and of texts that say something unsupported or lack a part, which must be refused; one scenario in forty reads a benchmark file shipped with the repository; non-trivial: a text other than the plain one was read",
        real: REAL_LIB,
        stub: STUB_LIB,
    }]
}
const BAD: &[&str] = &["type", "format", "no_type", "no_format", "no_dim", "no_cap", "no_coord", "no_demand", "no_matrix", "num", "row_short", "row_long"];
fn repo() -> String {
    std::env::var("DST_REPO").unwrap_or_else(|_| "/repo".into())
}
fn gen(i: u64, seed: u64, _t: bool) -> Scn {
    let mut r = R::new(seed);
    let mut s = Scn::new("C21", "fmt", seed);
    s.env.seed = r.u64();
    if i % 40 == 11 {
        let mut fs: Vec<String> = std::fs::read_dir(format!("{}/instances", repo())).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.ends_with(".vrp")).collect()).unwrap_or_default();
        fs.sort();
        if !fs.is_empty() {
            s.kind = "shipped".into();
            s.set("file", json!(r.pick(&fs).clone()));
            s.c("precompute_distance_size_limit", json!(100));
            s.set("subs", json!([delivery(&mut r, None)]));
            return s;
        }
    }
    s.inst = Some(crate::io::wide_inst(&mut r, i % 25 == 3));
    s.c("round_distances", json!(r.p(0.5)));
    if r.p(0.3) {
        s.c("precompute_distance_size_limit", json!(r.range(0, 20)));
    }
    let mut subs: Vec<Value> = vec![];
    for _ in 0..r.us(3, 8) {
        subs.push(delivery(&mut r, None));
    }
    for _ in 0..r.us(2, 5) {
        let b = *r.pick(BAD);
        subs.push(delivery(&mut r, Some(b)));
    }
    s.set("subs", json!(subs));
    s
}
fn delivery(r: &mut R, bad: Option<&str>) -> Value {
    let mut f: Vec<Fault> = vec![];
    if r.p(0.6) {
        let max = *r.pick(&[1u64, 3, 16, 100, 1000, 4096]);
        let max = if bad.is_none() { max } else { max.max(16) };
        f.push(Fault { class: simhook::INSTANCE, op: 1, kind: simhook::K_RAND, at: 0, arg: max, count: u64::MAX });
    }
    if r.p(0.3) {
        f.push(Fault { class: simhook::INSTANCE, op: 1, kind: simhook::K_EINTR, at: r.range(0, 6), arg: 0, count: r.range(1, 5) });
    }
    json!({"sty": r.u64() >> 12, "bad": bad.unwrap_or(""), "faults": f})
}
/// a text of `inst` in the style drawn from `sty`; `bad`: with one thing wrong
fn text(inst: &Inst, sty: u64, bad: &str) -> String {
    let mut r = R::new(mix(sty, 77));
    let eol = if r.p(0.35) { "\r\n" } else { "\n" };
    let sloppy = r.p(0.4); // blanks vary from line to line
    let forms = r.p(0.3); // numbers in various forms
    let sep0 = *r.pick(&[" : ", ": ", "\t: ", " :\t", ":", " ", " : \t"]);
    let gap0 = *r.pick(&[" ", "\t", "  ", " \t"]);
    let lead0 = *r.pick(&["", "", " ", "\t"]);
    let trail0 = *r.pick(&["", "", " ", "\t", "\t \t"]);
    let mut q = R::new(mix(sty, 78));
    let mut q2 = R::new(mix(sty, 79));
    let mut num = move |v: f64| -> String {
        if !forms {
            return format!("{}", v);
        }
        match q.us(0, 5) {
            0 => format!("{:e}", v),
            1 if v.fract() == 0.0 => format!("{:.1}", v),
            2 if v.is_sign_positive() => format!("+{}", v),
            3 if v.fract() == 0.0 && v.is_sign_positive() && v < 1e15 => format!("0{}", v),
            _ => format!("{}", v),
        }
    };
    let mut gap = move || if sloppy { *q2.pick(&[" ", "\t", "  ", " \t ", "\t\t", "   "]) } else { gap0 };
    let head = |k: &str, v: &str| format!("{}{}{}{}{}", lead0, k, sep0, v, trail0);
    let explicit = inst.lower.is_some();
    // where a number is none, and what stands there
    let mut q3 = R::new(mix(sty, 80));
    let which = *q3.pick(if explicit { &[0, 1, 2, 3, 3, 4, 5] } else { &[0, 1, 2, 4, 5][..] });
    let junk = *q3.pick(&["x", "1,5", "--3", "12abc", "1.2.3", "_", "nan", "NaN", "inf", "-inf", "1e999", "0x10"]);
    let mut lines: Vec<Vec<String>> = vec![]; // blocks
    let mut meta = vec![head("NAME", *r.pick(&["sim", "DIMENSION", "CAPACITY 5", "EXPLICIT-9"])), head("COMMENT", *r.pick(&["generated", "\"DIMENSION : 7, CAPACITY : 3\"", "a:b:c", "EDGE_WEIGHT_TYPE EXPLICIT", ""])), head("TYPE", "CVRP")];
    if r.p(0.3) {
        meta.push(head("DISTANCE", "0"));
    }
    if r.p(0.2) {
        meta.push(head("VEHICLES", "3"));
    }
    if bad != "no_dim" {
        let d = inst.xy.len().to_string();
        meta.push(head("DIMENSION", if bad == "num" && which == 5 { junk } else { &d }));
    }
    if bad != "no_cap" {
        let c = if bad == "num" && which == 4 { junk.into() } else { num(inst.cap) };
        meta.push(head("CAPACITY", &c));
    }
    if bad != "no_type" {
        let t = if bad == "type" {
            *r.pick(&["GEO", "CEIL_2D", "MAN_2D", "MAX_2D", "ATT", "EUC_3D", "FUNCTION", "EUC_2", "euc_2d", "EXPLICIT_", "SPECIAL", "XRAY1", "EXACT_2D"])
        } else if explicit {
            "EXPLICIT"
        } else {
            "EUC_2D"
        };
        meta.push(head("EDGE_WEIGHT_TYPE", t));
    }
    if explicit && bad != "no_format" {
        let f = if bad == "format" { *r.pick(&["UPPER_ROW", "FULL_MATRIX", "LOWER_DIAG_ROW", "UPPER_DIAG_ROW", "LOWER_COL", "UPPER_COL", "FUNCTION", "lower_row"]) } else { "LOWER_ROW" };
        meta.push(head("EDGE_WEIGHT_FORMAT", f));
    }
    if r.p(0.3) {
        meta.push(head("NODE_COORD_TYPE", "TWOD_COORDS"));
    }
    if r.p(0.6) {
        let mut k = meta.len();
        while k > 1 {
            let j = r.us(0, k);
            k -= 1;
            meta.swap(k, j);
        }
    }
    let colon = r.p(0.1);
    let sec = |k: &str| format!("{}{}{}{}", lead0, k, if colon { " :" } else { "" }, trail0);
    let m = inst.xy.len();
    let wrong = r.us(0, m); // where a bad number sits
    let mut secs: Vec<Vec<String>> = vec![];
    if bad != "no_coord" {
        let mut c = vec![sec("NODE_COORD_SECTION")];
        for (i, (x, y)) in inst.xy.iter().enumerate() {
            let (mut a, mut b) = (num(*x), num(*y));
            if bad == "num" && i == wrong && which == 0 {
                a = junk.into();
            }
            if bad == "num" && i == wrong && which == 1 {
                b = junk.into();
            }
            c.push(format!("{}{}{}{}{}{}{}", lead0, i + 1, gap(), a, gap(), b, trail0));
        }
        secs.push(c);
    }
    if bad != "no_demand" {
        let mut c = vec![sec("DEMAND_SECTION")];
        for (i, d) in inst.d.iter().enumerate() {
            let v = if bad == "num" && i == wrong && which == 2 { junk.into() } else { num(*d) };
            c.push(format!("{}{}{}{}{}", lead0, i + 1, gap(), v, trail0));
        }
        secs.push(c);
    }
    if let Some(l) = &inst.lower {
        if bad != "no_matrix" {
            let mut c = vec![sec("EDGE_WEIGHT_SECTION")];
            let at = r.us(0, l.len());
            for (i, row) in l.iter().enumerate() {
                let mut v: Vec<String> = row.iter().map(|x| num(*x)).collect();
                if i == at && bad == "row_short" {
                    v.pop();
                }
                if i == at && bad == "row_long" {
                    v.push("7".into());
                }
                if i == at && bad == "num" && which == 3 {
                    let k = v.len() / 2;
                    v[k] = junk.into();
                }
                let g = gap();
                c.push(format!("{}{}{}", lead0, v.join(g), trail0));
            }
            secs.push(c);
        }
    }
    let mut k = secs.len();
    while k > 1 {
        let j = r.us(0, k);
        k -= 1;
        secs.swap(k, j);
    }
    // header lines may also follow a section
    let split = if r.p(0.15) { r.us(0, meta.len() + 1) } else { meta.len() };
    let late = meta.split_off(split);
    lines.push(meta);
    let at = r.us(0, secs.len() + 1);
    for (i, s) in secs.into_iter().enumerate() {
        if i == at {
            lines.push(late.clone());
        }
        lines.push(s);
    }
    if !late.is_empty() && !lines.contains(&late) {
        lines.push(late);
    }
    if r.p(0.8) {
        lines.push(vec!["DEPOT_SECTION".into(), " 1".into(), " -1".into()]);
    }
    if r.p(0.8) {
        lines.push(vec!["EOF".into()]);
    }
    let blank = r.p(0.3);
    let mut out = String::new();
    for b in &lines {
        if blank && r.p(0.5) {
            out.push_str(*r.pick(&["", " ", "\t"]));
            out.push_str(eol);
        }
        for l in b {
            out.push_str(l);
            out.push_str(eol);
        }
    }
    if r.p(0.3) && out.ends_with(eol) {
        out.truncate(out.len() - eol.len());
    }
    out
}
/// whether this kind of error makes a difference to this instance
fn applies(inst: &Inst, bad: &str) -> bool {
    match bad {
        "format" | "no_format" | "no_matrix" | "row_short" | "row_long" => inst.lower.is_some(),
        _ => true,
    }
}
/// independent reading of a shipped file: only the layouts found there
fn read_plain(b: &[u8]) -> Option<Inst> {
    let t = std::str::from_utf8(b).ok()?;
    let mut inst = Inst { xy: vec![], d: vec![], cap: -1.0, lower: None, style: 0 };
    let mut mode = 0;
    let mut dim = 0usize;
    for l in t.split('\n') {
        let w: Vec<&str> = l.split(|c: char| c.is_whitespace() || c == ':').filter(|x| !x.is_empty()).collect();
        if w.is_empty() {
            continue;
        }
        if w[0].chars().next().unwrap().is_ascii_alphabetic() {
            mode = 0;
        }
        match (mode, w[0]) {
            (_, "DIMENSION") => dim = w[1].parse().ok()?,
            (_, "CAPACITY") => inst.cap = w[1].parse().ok()?,
            (_, "EDGE_WEIGHT_TYPE") if w[1] != "EUC_2D" => return None,
            (_, "NODE_COORD_SECTION") => mode = 1,
            (_, "DEMAND_SECTION") => mode = 2,
            (_, "DEPOT_SECTION") => mode = 3,
            (1, _) => inst.xy.push((w[1].parse().ok()?, w[2].parse().ok()?)),
            (2, _) => inst.d.push(w[1].parse().ok()?),
            _ => {}
        }
    }
    if inst.xy.len() != dim || inst.d.len() != dim || inst.cap < 0.0 {
        return None;
    }
    Some(inst)
}
fn run(s: &Scn) -> Out {
    let mut o = Out::default();
    let subs: Vec<Value> = s.par.get("subs").and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let shipped = s.kind == "shipped";
    let mut raw: Vec<u8> = vec![];
    let inst = if shipped {
        let f = s.par.get("file").and_then(|v| v.as_str()).unwrap_or("");
        raw = match std::fs::read(format!("{}/instances/{}", repo(), f)) {
            Ok(b) => b,
            Err(_) => return o,
        };
        match read_plain(&raw) {
            Some(i) => i,
            None => return o,
        }
    } else {
        s.inst().clone()
    };
    let inst = &inst;
    let path = scratch().join("inst.vrp");
    let rounded = s.rounded();
    let mut tr = H::new();
    for sub in subs.iter() {
        let sty = sub["sty"].as_u64().unwrap_or(0);
        let bad = sub["bad"].as_str().unwrap_or("");
        if !applies(inst, bad) {
            continue;
        }
        let body = if shipped { raw.clone() } else { text(inst, sty, bad).into_bytes() };
        std::fs::write(&path, &body).expect("scratch instance");
        let mut e = s.env.clone();
        e.seed = mix(e.seed, sty);
        e.faults = serde_json::from_value(sub["faults"].clone()).unwrap_or_default();
        let mut verdict: Option<String> = None;
        let (res, st) = under(&e, 1_000_000, &[(simhook::INSTANCE, path.to_string_lossy().into())], || {
            let mut cfg = config(s);
            cfg.instance_path = path.to_string_lossy().into_owned();
            let start = instant::Instant::now();
            let mut parser = ProblemParser::new();
            parser.parse(&mut cfg);
            outside(|| verdict = crate::io::differs(inst, &parser));
            if verdict.is_none() && bad.is_empty() && inst.n() <= 60 {
                let ctx = Context::new(parser, cfg, start);
                outside(|| {
                    let m = inst.xy.len();
                    for i in 0..m {
                        for j in 0..m {
                            let (x, want) = (ctx.matrix_provider.distance.get(i, j), inst.dist(i, j, rounded));
                            if (x - want).abs() > inst.tol_cost(want) && verdict.is_none() {
                                verdict = Some(format!("distance {} -> {} is {} instead of {}", i, j, x, want));
                            }
                        }
                    }
                    drop(ctx);
                });
            }
        });
        account(&mut o, &e, &st);
        o.nontrivial = true;
        tr.add(body.len() as u64);
        tr.add(mix(sty, res.is_ok() as u64));
        if st.hang {
            o.v("hang", "the load did not end".into());
            break;
        }
        let shown = || {
            let t = String::from_utf8_lossy(&body).into_owned();
            if t.len() > 1500 {
                "".into()
            } else {
                format!(" [{:?}]", t)
            }
        };
        if !bad.is_empty() {
            o.inc("unsupported_texts", 1);
            if res.is_ok() {
                o.v("accepted", format!("a text that is not understood ({}) was accepted{}", bad, shown()));
                break;
            }
            continue;
        }
        o.inc(if shipped { "shipped_files" } else { "intact_texts" }, 1);
        match res {
            Err(End::Panic(m)) => {
                o.v("refused", format!("an intact text was refused: {}{}", m, shown()));
                break;
            }
            Err(End::Budget) => {
                o.aborted = Some("harness: budget in parser".into());
                break;
            }
            _ => {}
        }
        if let Some(d) = verdict {
            o.v("different", format!("an intact text was read as another problem: {}{}", d, shown()));
            break;
        }
    }
    o.trace = tr.0 | 1;
    o
}
