//! Generators and references for periodic FIFO travel time functions.

use crate::gen::*;
use crate::pbt::*;
use rust_road_router::datastr::graph::time_dependent::*;

pub const P: u32 = 86_400_000;

/// Breakpoints as a user would store them: (departure in ms within the period, travel time in ms).
/// One point means constant. A function that does not start at 0 has the value of its first point there.
pub type Raw = Vec<(u32, u32)>;

/// The same function with points at 0 and at the end of the period.
pub fn full(raw: &Raw) -> Raw {
    let mut f = raw.clone();
    let first = f[0].1;
    if f[0].0 != 0 {
        f.insert(0, (0, first));
    }
    if f[f.len() - 1].0 != P {
        f.push((P, first));
    }
    f
}

/// Enforce the FIFO property by changing travel times only.
pub fn fifo(raw: &mut Raw) {
    if raw.len() == 1 {
        return;
    }
    let k = raw.len();
    for i in 1..k {
        let gap = raw[i].0 - raw[i - 1].0;
        raw[i].1 = raw[i].1.max(raw[i - 1].1.saturating_sub(gap));
    }
    // at the end of the period the function continues with the value of the first point
    let mut next = raw[0].1;
    let mut at = P;
    for i in (1..k).rev() {
        raw[i].1 = raw[i].1.min(next.saturating_add(at - raw[i].0));
        next = raw[i].1;
        at = raw[i].0;
    }
}

pub fn plf(c: &mut Case, max_points: usize, max_tt: u32) -> Raw {
    let k = if c.chance(1, 4) { 1 } else { c.size(1, max_points) };
    let grid = *c.pick(&[3_600_000u32, 1, 600_000, 7]);
    let mut at: Vec<u32> = if grid == 1 || grid == 7 {
        // a cluster of points close to each other
        let base = if c.coin() { 0 } else { c.u32(0, P - 1 - 20 * grid) };
        (0..k).map(|_| base + grid * c.u32(0, 20)).collect()
    } else {
        (0..k).map(|_| grid * c.u32(0, P / grid - 1) + if c.chance(1, 4) { c.u32(0, grid - 1) } else { 0 }).collect()
    };
    if c.chance(1, 2) {
        at[0] = 0;
    }
    if c.chance(1, 8) {
        at[0] = P - 1;
    }
    at.sort_unstable();
    at.dedup();
    let hi = match c.draw(3) {
        0 => 5.min(max_tt),
        1 => 3_000.min(max_tt),
        2 => 1_000_000.min(max_tt),
        _ => max_tt,
    };
    let mut raw: Raw = at.into_iter().map(|t| (t, c.u32(0, hi))).collect();
    fifo(&mut raw);
    raw
}

/// A point in time, often at or next to a breakpoint.
pub fn instant(c: &mut Case, raws: &[&Raw]) -> u32 {
    match c.draw(3) {
        0 => 3_600_000 * c.u32(0, 23),
        1 => c.u32(0, P - 1),
        2 => *c.pick(&[0, 1, P - 1, P / 2]),
        _ => {
            let r: &Raw = raws[c.size(0, raws.len().max(1) - 1)];
            let p = c.pick(r).0;
            (p + P + c.u32(0, 4) - 2) % P
        }
    }
}

/// Exact value as fraction (numerator, denominator).
pub fn exact(raw: &Raw, t: u64) -> (i128, i128) {
    if raw.len() == 1 {
        return (raw[0].1 as i128, 1);
    }
    let f = full(raw);
    let t = (t % P as u64) as u32;
    let i = (1..f.len()).find(|&i| t <= f[i].0).unwrap();
    let (x0, y0) = (f[i - 1].0 as i128, f[i - 1].1 as i128);
    let (x1, y1) = (f[i].0 as i128, f[i].1 as i128);
    (y0 * (x1 - x0) + (t as i128 - x0) * (y1 - y0), x1 - x0)
}

/// Value rounded down, as in the integer data structures.
pub fn eval(raw: &Raw, t: u64) -> u64 {
    let (a, b) = exact(raw, t);
    // the arrival time is rounded down; adding an integer to it does not matter
    a.div_euclid(b) as u64
}

#[derive(Clone, Debug)]
pub struct TdG {
    pub n: usize,
    /// tail, head, function; sorted by tail
    pub edges: Vec<(u32, u32, Raw)>,
}

impl TdG {
    pub fn first_out(&self) -> Vec<u32> {
        let mut f = vec![0; self.n + 1];
        for e in &self.edges {
            f[e.0 as usize + 1] += 1;
        }
        for i in 0..self.n {
            f[i + 1] += f[i];
        }
        f
    }
    pub fn head(&self) -> Vec<u32> {
        self.edges.iter().map(|e| e.1).collect()
    }
    pub fn ipps(&self) -> (Vec<u32>, Vec<u32>, Vec<u32>) {
        let mut first = vec![0];
        let mut dep = Vec::new();
        let mut tt = Vec::new();
        for e in &self.edges {
            for &(a, b) in &e.2 {
                dep.push(a);
                tt.push(b);
            }
            first.push(dep.len() as u32);
        }
        (first, dep, tt)
    }
    pub fn td(&self) -> TDGraph {
        let (f, d, t) = self.ipps();
        TDGraph::new(self.first_out(), self.head(), f, d, t)
    }
    pub fn desc(&self) -> String {
        format!("n={} edges={:?}", self.n, self.edges)
    }
    /// static graph with some weight per edge
    pub fn with(&self, mut f: impl FnMut(usize, &Raw) -> u32) -> G {
        G { n: self.n, edges: self.edges.iter().enumerate().map(|(i, e)| (e.0, e.1, f(i, &e.2))).collect() }
    }
    pub fn lower(&self) -> G {
        self.with(|_, r| r.iter().map(|p| p.1).min().unwrap())
    }
    pub fn upper(&self) -> G {
        self.with(|_, r| r.iter().map(|p| p.1).max().unwrap())
    }
    /// Reference earliest arrivals (absolute) for a FIFO evaluation function of edges.
    pub fn arrivals(&self, s: u32, dep: u64, f: &dyn Fn(usize, u64) -> Option<u64>) -> Vec<u64> {
        let mut d = vec![INF; self.n];
        d[s as usize] = dep;
        loop {
            let mut changed = false;
            for (i, e) in self.edges.iter().enumerate() {
                let a = d[e.0 as usize];
                if a != INF {
                    if let Some(tt) = f(i, a) {
                        if a + tt < d[e.1 as usize] {
                            d[e.1 as usize] = a + tt;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                return d;
            }
        }
    }
}

pub fn td_graph(c: &mut Case, cfg: &Cfg, max_points: usize, max_tt: u32) -> TdG {
    let g = graph(c, cfg);
    td_from(c, &g, max_points, max_tt, if cfg.zero { 0 } else { 1 })
}

pub fn td_from(c: &mut Case, g: &G, max_points: usize, max_tt: u32, min_tt: u32) -> TdG {
    let mut edges: Vec<(u32, u32, Raw)> = g
        .edges
        .iter()
        .map(|&(a, b, _)| {
            let mut r = plf(c, max_points, max_tt);
            if min_tt > 0 {
                for p in r.iter_mut() {
                    p.1 = p.1.max(min_tt);
                }
                fifo(&mut r);
            }
            (a, b, r)
        })
        .collect();
    edges.sort_by_key(|e| e.0);
    TdG { n: g.n, edges }
}

/// Functions for the floating point algebra: breakpoints at least a second apart and travel times rising at most
/// `RISE` times as fast as time passes. (Steeper functions run into the rounding of 64 bit floats at day scale.)
pub const RISE: u32 = 10;

pub fn plf_fl(c: &mut Case, max_points: usize, max_tt: u32, min_tt: u32) -> Raw {
    let k = if c.chance(1, 5) { 1 } else { c.size(1, max_points) };
    let grid = *c.pick(&[3_600_000u32, 600_000, 60_000, 1000]);
    let cluster = grid <= 60_000 && c.chance(3, 4);
    let base = if !cluster || c.chance(1, 4) { 0 } else { grid * c.u32(0, P / grid - 31) };
    let mut at: Vec<u32> = (0..k).map(|_| if cluster { base + grid * c.u32(0, 30) } else { grid * c.u32(0, P / grid - 1) }).collect();
    if c.chance(1, 2) {
        at[0] = 0;
    }
    at.sort_unstable();
    at.dedup();
    let hi = match c.draw(3) {
        0 => 5_000,
        1 => 60_000,
        2 => 900_000,
        _ => max_tt,
    }
    .min(max_tt)
    .max(min_tt);
    let unit = *c.pick(&[1u32, 1000, 60_000]);
    let mut raw: Raw = at.into_iter().map(|t| (t, (c.u32(min_tt, hi) / unit * unit).max(min_tt))).collect();
    limit_slopes(&mut raw);
    raw
}

pub fn limit_slopes(raw: &mut Raw) {
    let k = raw.len();
    if k == 1 {
        return;
    }
    let gap = |raw: &Raw, i: usize| if i + 1 < k { raw[i + 1].0 - raw[i].0 } else { P - raw[i].0 };
    for _ in 0..2 {
        for i in 0..k {
            let j = (i + 1) % k;
            raw[j].1 = raw[j].1.min(raw[i].1.saturating_add(gap(raw, i).saturating_mul(RISE)));
        }
    }
    for _ in 0..2 {
        for i in (0..k).rev() {
            let j = (i + 1) % k;
            raw[i].1 = raw[i].1.min(raw[j].1 + gap(raw, i));
        }
    }
}

pub fn td_fl(c: &mut Case, g: &G, max_points: usize, max_tt: u32, min_tt: u32) -> TdG {
    let mut edges: Vec<(u32, u32, Raw)> = g.edges.iter().map(|&(a, b, _)| (a, b, plf_fl(c, max_points, max_tt, min_tt))).collect();
    edges.sort_by_key(|e| e.0);
    TdG { n: g.n, edges }
}
