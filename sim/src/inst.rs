//! Reference model of an instance: distances, routes, loads; and the generator of instances.
use crate::rng::R;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Inst {
    /// node 0 is the depot
    pub xy: Vec<(f64, f64)>,
    pub d: Vec<f64>,
    pub cap: f64,
    /// lower rows (row i holds distances of node i+1 to nodes 0..=i), if explicit
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub lower: Option<Vec<Vec<f64>>>,
    /// text style of the instance file (section order, separators)
    #[serde(default)]
    pub style: u64,
}
pub const TOL: f64 = 1e-6;

impl Inst {
    pub fn n(&self) -> usize {
        self.xy.len() - 1
    }
    pub fn dist(&self, a: usize, b: usize, rounded: bool) -> f64 {
        if a == b {
            return 0.0;
        }
        if let Some(l) = &self.lower {
            let (hi, lo) = if a > b { (a, b) } else { (b, a) };
            let v = l[hi - 1][lo];
            return if rounded { v.round() } else { v };
        }
        let dx = self.xy[a].0 - self.xy[b].0;
        let dy = self.xy[a].1 - self.xy[b].1;
        let v = (dx * dx + dy * dy).sqrt();
        if rounded {
            v.round()
        } else {
            v
        }
    }
    pub fn route_len(&self, r: &[usize], rounded: bool) -> f64 {
        let mut last = 0;
        let mut s = 0.0;
        for &c in r {
            s += self.dist(last, c, rounded);
            last = c;
        }
        s + self.dist(last, 0, rounded)
    }
    pub fn cost(&self, routes: &[Vec<usize>], rounded: bool) -> f64 {
        routes.iter().filter(|r| !r.is_empty()).map(|r| self.route_len(r, rounded)).sum()
    }
    pub fn load(&self, r: &[usize]) -> f64 {
        r.iter().map(|&c| self.d[c]).sum()
    }
    /// every customer exactly once, nothing else
    pub fn partition_err(&self, routes: &[Vec<usize>]) -> Option<String> {
        let mut seen = vec![0u32; self.n() + 1];
        for r in routes {
            for &c in r {
                if c == 0 || c > self.n() {
                    return Some(format!("route names node {}", c));
                }
                seen[c] += 1;
            }
        }
        for c in 1..=self.n() {
            if seen[c] != 1 {
                return Some(format!("customer {} is visited {} times", c, seen[c]));
            }
        }
        None
    }
    pub fn overload_err(&self, routes: &[Vec<usize>]) -> Option<String> {
        for (i, r) in routes.iter().enumerate() {
            let l = self.load(r);
            if l > self.cap + self.tol_load() {
                return Some(format!("route {} carries {} with capacity {}", i, l, self.cap));
            }
        }
        None
    }
    pub fn tol_load(&self) -> f64 {
        // the solver compares loads with an epsilon of 1e-6; sums of fractional demands may differ in
        // the last bits with the order of summation
        1.5e-6 + 1e-12 * self.cap.abs()
    }
    pub fn overload(&self, routes: &[Vec<usize>]) -> f64 {
        routes.iter().map(|r| (self.load(r) - self.cap).max(0.0)).sum()
    }
    /// a reference value and the tolerance of comparing with it
    pub fn tol_cost(&self, cost: f64) -> f64 {
        TOL + 1e-9 * cost.abs()
    }
    pub fn pen_cost(&self, routes: &[Vec<usize>], rounded: bool, pen: f64) -> f64 {
        self.cost(routes, rounded) + pen * self.overload(routes)
    }
    /// tolerance for penalised costs: rounding noise is proportional to penalty x load
    pub fn tol_pen(&self, cost: f64, pen: f64) -> f64 {
        let total: f64 = self.d.iter().sum::<f64>() + self.cap;
        // epsilon in load (1e-6 comparisons do not enter the cost), noise of summation
        TOL + 1e-9 * cost.abs() + pen * total * 1e-13
    }
    pub fn max_demand(&self) -> f64 {
        self.d.iter().cloned().fold(0.0, f64::max)
    }
    pub fn lower_bound(&self) -> u64 {
        (self.d.iter().sum::<f64>() / self.cap).ceil() as u64
    }

    pub fn text(&self) -> String {
        let st = self.style;
        let sep = match st % 4 {
            0 => " : ",
            1 => ": ",
            2 => "\t: ",
            _ => " :\t",
        };
        let gap = if st & 4 != 0 { "\t" } else { " " };
        let eol = if st & 1024 != 0 { "\r\n" } else { "\n" };
        let eol = if eol == "\r\n" { "\n" } else { eol };
        let mut head = vec![
            format!("NAME{}sim-{}", sep, st),
            format!("COMMENT{}generated, no best known", sep),
            format!("TYPE{}CVRP", sep),
        ];
        let mut spec = vec![format!("DIMENSION{}{}", sep, self.xy.len()), format!("CAPACITY{}{}", sep, self.cap)];
        if self.lower.is_some() {
            spec.push(format!("EDGE_WEIGHT_TYPE{}EXPLICIT", sep));
            spec.push(format!("EDGE_WEIGHT_FORMAT{}LOWER_ROW", sep));
        } else {
            spec.push(format!("EDGE_WEIGHT_TYPE{}EUC_2D", sep));
        }
        if st & 8 != 0 {
            spec.reverse();
        }
        head.extend(spec);
        let mut secs: Vec<Vec<String>> = vec![];
        let mut c = vec!["NODE_COORD_SECTION".to_string()];
        for (i, (x, y)) in self.xy.iter().enumerate() {
            c.push(format!("{}{}{}{}{}", i + 1, gap, x, gap, y));
        }
        secs.push(c);
        if let Some(l) = &self.lower {
            let mut c = vec!["EDGE_WEIGHT_SECTION".to_string()];
            for row in l {
                c.push(row.iter().map(|v| format!("{}", v)).collect::<Vec<_>>().join(gap));
            }
            if st & 16 != 0 {
                secs.insert(0, c);
            } else {
                secs.push(c);
            }
        }
        let mut c = vec!["DEMAND_SECTION".to_string()];
        for (i, d) in self.d.iter().enumerate() {
            c.push(format!("{}{}{}{}", i + 1, gap, d, if st & 32 != 0 { " " } else { "" }));
        }
        if st & 64 != 0 {
            secs.insert(0, c);
        } else {
            secs.push(c);
        }
        let mut out: Vec<String> = head;
        for s in secs {
            out.extend(s);
        }
        out.push("DEPOT_SECTION".into());
        out.push(" 1".into());
        out.push(" -1".into());
        out.push("EOF".into());
        let mut t = out.join(eol);
        if st & 128 == 0 {
            t.push_str(eol);
        }
        t
    }
    /// drop customer c (for shrinking)
    pub fn without(&self, c: usize) -> Inst {
        let mut k = self.clone();
        k.xy.remove(c);
        k.d.remove(c);
        if let Some(l) = &mut k.lower {
            l.remove(c - 1);
            for row in l.iter_mut() {
                if row.len() > c {
                    row.remove(c);
                }
            }
        }
        k
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Any,
    Edge,
    Loose,
    Tight,
    Feasible,
}

pub fn gen_n(r: &mut R, max: usize) -> usize {
    let n = match r.us(0, 10) {
        0 => r.us(1, 4),
        1 => r.us(2, 8),
        2 | 3 => r.us(5, 15),
        4 | 5 | 6 => r.us(10, 30),
        7 | 8 => r.us(20, 45),
        _ => r.us(30, 80),
    };
    n.clamp(1, max)
}

pub fn gen(r: &mut R, n: usize, kind: Kind, rounded: bool) -> Inst {
    let m = n + 1;
    let fractional = r.p(0.15);
    let scale = *r.pick(&[10.0, 100.0, 1000.0, 1000.0, 50.0]);
    let mut xy: Vec<(f64, f64)> = vec![];
    let layout = r.us(0, 7);
    let centers: Vec<(f64, f64)> = (0..r.us(1, 5)).map(|_| (r.f() * scale, r.f() * scale)).collect();
    for i in 0..m {
        let (mut x, mut y) = match layout {
            0 | 1 => (r.f() * scale, r.f() * scale),
            2 | 3 => {
                let c = *r.pick(&centers);
                (c.0 + (r.f() + r.f() - 1.0) * scale * 0.1, c.1 + (r.f() + r.f() - 1.0) * scale * 0.1)
            }
            4 => {
                let a = i as f64 / m as f64 * 6.283185307179586;
                (scale / 2.0 + a.cos() * scale / 2.0, scale / 2.0 + a.sin() * scale / 2.0)
            }
            5 => (r.f() * scale, scale / 2.0),
            _ => ((r.us(0, 4) as f64) * scale / 4.0, (r.us(0, 4) as f64) * scale / 4.0),
        };
        if !fractional {
            x = x.round();
            y = y.round();
        }
        xy.push((x, y));
    }
    match r.us(0, 4) {
        0 => xy[0] = ((scale / 2.0).round(), (scale / 2.0).round()),
        1 => xy[0] = (0.0, 0.0),
        _ => {}
    }
    if kind == Kind::Edge && r.p(0.3) {
        // coincident points
        let k = r.us(1, 4);
        for i in 0..m {
            xy[i] = xy[i % k];
        }
    }
    if r.p(0.05) {
        for p in xy.iter_mut() {
            p.0 -= scale;
            p.1 -= scale;
        }
    }
    let fdem = r.p(0.1);
    let mut d: Vec<f64> = (0..m)
        .map(|_| {
            let v = match layout_d(r) {
                0 => 1.0,
                1 => r.us(1, 10) as f64,
                2 => r.us(1, 100) as f64,
                3 => r.us(50, 100) as f64,
                _ => 0.0,
            };
            if fdem {
                v + (r.us(0, 4) as f64) * 0.25
            } else {
                v
            }
        })
        .collect();
    // one demand family for most instances
    let fam = r.us(0, 6);
    for i in 1..m {
        d[i] = match fam {
            0 => 1.0,
            1 => r.us(1, 10) as f64,
            2 => r.us(1, 100) as f64,
            3 => r.us(40, 100) as f64,
            _ => d[i],
        };
        if fdem {
            d[i] += (r.us(0, 4) as f64) * 0.25;
        }
    }
    d[0] = 0.0;
    if kind == Kind::Edge && r.p(0.15) {
        for i in 1..m {
            if r.p(0.7) {
                d[i] = 0.0
            }
        }
    }
    if r.p(0.03) && kind != Kind::Loose {
        for v in d.iter_mut() {
            *v = 0.0
        }
    }
    let total: f64 = d.iter().sum();
    let maxd = d.iter().cloned().fold(0.0, f64::max).max(1.0);
    let k = match r.us(0, 5) {
        0 => 1,
        1 => 2,
        _ => r.us(1, (n / 2).max(2) + 1),
    } as f64;
    let cap = match kind {
        Kind::Loose => (total / k).max(maxd * 8.0).ceil(),
        Kind::Tight => (total / k * (1.0 + 0.05 * r.f())).max(maxd).ceil(),
        Kind::Feasible => (total / k * (1.05 + 0.3 * r.f())).max(maxd * (2.0 + 3.0 * r.f())).ceil(),
        Kind::Any => match r.us(0, 6) {
            0 => (total / k).max(maxd).ceil(),
            1 => (total / k * 1.02).max(maxd).ceil(),
            2 => (total * 2.0).max(maxd).ceil(),
            3 => (maxd * (1.0 + r.f())).ceil(),
            _ => (total / k * (1.05 + 0.3 * r.f())).max(maxd * (1.0 + 3.0 * r.f())).ceil(),
        },
        Kind::Edge => match r.us(0, 6) {
            0 => (maxd * 0.5).ceil().max(1.0), // some demand exceeds the capacity
            1 => maxd.ceil(),
            2 => (total * 3.0).max(maxd).ceil(),
            _ => (total / k).max(maxd).ceil(),
        },
    };
    let mut cap = cap;
    if matches!(kind, Kind::Any | Kind::Tight | Kind::Edge) && r.p(0.1) {
        // a few big demands per route: packing is the problem, and the fleet may not suffice
        let f = *r.pick(&[51.0, 90.0, 67.0, 34.0, 100.0]);
        let w = r.us(0, 5);
        cap = 100.0;
        for v in d.iter_mut().skip(1) {
            *v = (f - r.us(0, w + 1) as f64 * (r.f().round())).min(100.0);
        }
    }
    // large demands, where routes miss the capacity by a sliver of it
    if r.p(0.12) {
        let f = *r.pick(&[1_000.0, 10_000.0, 100_000.0, 1_000_000.0]);
        let w = if matches!(kind, Kind::Any | Kind::Tight | Kind::Edge) { r.us(1, 6) } else { 1 };
        let slack = r.us(0, 2 * w) as f64;
        for v in d.iter_mut().skip(1) {
            *v *= f;
            if *v > 0.0 {
                *v += r.us(0, w) as f64;
            }
        }
        cap = cap * f + slack;
    }
    let mut inst = Inst { xy, d, cap, lower: None, style: r.u64() % 512 };
    if r.p(0.15) {
        let noise = r.p(0.5);
        let mut l = vec![];
        for i in 1..m {
            let mut row = vec![];
            for j in 0..i {
                let mut v = inst.dist(i, j, true);
                if noise {
                    v += r.us(0, 20) as f64;
                }
                if !rounded && r.p(0.5) {
                    v += 0.5;
                }
                row.push(v);
            }
            l.push(row);
        }
        inst.lower = Some(l);
    }
    inst
}
fn layout_d(r: &mut R) -> usize {
    match r.us(0, 12) {
        0 | 1 => 0,
        2 | 3 | 4 | 5 => 1,
        6 | 7 | 8 => 2,
        9 | 10 => 3,
        _ => 4,
    }
}
