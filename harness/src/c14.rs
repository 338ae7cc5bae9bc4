//! The algebra of real-valued travel time functions.

use crate::pbt::*;
use crate::td::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;
use std::convert::TryFrom;

pub static PROP: Property = Property {
    id: "C14",
    rule: "at least one of the functions involved is not constant",
    subs: &[
        Sub { name: "evaluate", f: evaluate, quick: 600_000, thorough: 40_000_000, big: false },
        Sub { name: "link", f: link, quick: 600_000, thorough: 40_000_000, big: false },
        Sub { name: "merge", f: merge, quick: 1000_000, thorough: 80_000_000, big: false },
        Sub { name: "expression", f: expression, quick: 300_000, thorough: 20_000_000, big: false },
        Sub { name: "bounds", f: bounds, quick: 600_000, thorough: 40_000_000, big: false },
        Sub { name: "partial", f: partial, quick: 800_000, thorough: 60_000_000, big: false },
        Sub { name: "updated", f: updated, quick: 600_000, thorough: 40_000_000, big: false },
        Sub { name: "paths", f: paths, quick: 300_000, thorough: 20_000_000, big: false },
    ],
};

pub const DAY: f64 = 86_400.0;
pub type F = Vec<(f64, f64)>;

pub fn ts(t: f64) -> Timestamp {
    Timestamp::new(t)
}

pub fn tt(raw: &Raw) -> F {
    if raw.len() == 1 {
        return vec![(0.0, raw[0].1 as f64 / 1000.0)];
    }
    full(raw).iter().map(|&(t, v)| (t as f64 / 1000.0, v as f64 / 1000.0)).collect()
}

pub fn points(f: &[(f64, f64)]) -> Vec<TTFPoint> {
    f.iter().map(|&(t, v)| TTFPoint { at: ts(t), val: FlWeight::new(v) }).collect()
}

pub fn pairs(f: &[TTFPoint]) -> F {
    f.iter().map(|p| (f64::from(p.at), f64::from(p.val))).collect()
}

/// The value of the points' polyline; the first and last value beyond its ends.
pub fn line(f: &[(f64, f64)], t: f64) -> f64 {
    let i = f.partition_point(|p| p.0 <= t);
    if i == 0 {
        return f[0].1;
    }
    if i == f.len() {
        return f[i - 1].1;
    }
    let (a, b) = (f[i - 1], f[i]);
    a.1 + (b.1 - a.1) * ((t - a.0) / (b.0 - a.0))
}

pub fn at(f: &[(f64, f64)], t: f64) -> f64 {
    line(f, t.rem_euclid(DAY))
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// Valid, FIFO and over the whole day.
pub fn valid(f: &[(f64, f64)], what: &str) -> Result<(), String> {
    ensure!(!f.is_empty(), "{} is empty", what);
    ensure!(f[0].0 == 0.0, "{} does not start at 0: {:?}", what, f);
    if f.len() > 1 {
        ensure!(close(f[f.len() - 1].0, DAY, 1e-6), "{} does not end with the day: {:?}", what, f);
        ensure!(close(f[0].1, f[f.len() - 1].1, 1e-5), "{} is not periodic: {:?}", what, f);
    }
    partial_valid(f, what)
}

pub fn partial_valid(f: &[(f64, f64)], what: &str) -> Result<(), String> {
    for w in f.windows(2) {
        ensure!(w[0].0 < w[1].0, "points of {} are not sorted: {:?}", what, w);
        ensure!(w[1].1 - w[0].1 >= w[0].0 - w[1].0 - 1e-5, "{} is not FIFO: {:?}", what, w);
    }
    for p in f {
        ensure!(p.1 >= -1e-6 && p.1.is_finite() && p.0.is_finite(), "{} contains {:?}", what, p);
    }
    Ok(())
}

/// A function, optionally derived from another so that they meet, overlap or touch.
fn second(c: &mut Case, a: &Raw, max_points: usize, max_tt: u32) -> Raw {
    if c.coin() {
        return plf_fl(c, max_points, max_tt, 0);
    }
    let mut b = a.clone();
    let shift = *c.pick(&[0u32, 1, 1000, 5000, 60_000]);
    for p in b.iter_mut() {
        match c.draw(3) {
            0 => (),
            1 => p.1 = p.1.saturating_add(shift).min(max_tt),
            2 => p.1 = p.1.saturating_sub(shift),
            _ => p.1 = c.u32(0, max_tt.min(100_000)),
        }
    }
    if b.len() > 1 && c.chance(1, 4) {
        let i = c.size(0, b.len() - 1);
        b.remove(i);
    }
    limit_slopes(&mut b);
    b
}

/// Points in time at which to compare: at, between and around breakpoints, and anywhere.
fn instants(c: &mut Case, fs: &[&[(f64, f64)]], lo: f64, hi: f64) -> Vec<f64> {
    let mut ts: Vec<f64> = fs.iter().flat_map(|f| f.iter().map(|p| p.0)).filter(|&t| t >= lo && t <= hi).collect();
    ts.push(lo);
    ts.push(hi);
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mids: Vec<f64> = ts.windows(2).map(|w| (w[0] + w[1]) / 2.0).collect();
    ts.extend(mids);
    for _ in 0..4 {
        let x = c.u32(0, 1_000_000_000) as f64 / 1e9;
        ts.push(lo + (hi - lo) * x);
    }
    ts
}

fn desc(name: &str, f: &[(f64, f64)]) -> String {
    format!("{} = {:?}", name, f)
}

const TOL: f64 = 1e-4;
const MAX_TT: u32 = 100_000_000;

fn evaluate(c: &mut Case) -> Result<(), String> {
    let raw = plf_fl(c, 8, MAX_TT, 0);
    let f = tt(&raw);
    c.note(|| desc("f", &f));
    if f.len() > 1 {
        c.nontrivial();
    }
    let ps = points(&f);
    let plf = PeriodicPiecewiseLinearFunction::new(&ps);
    let lower = f.iter().map(|p| p.1).fold(f64::MAX, f64::min);
    let upper = f.iter().map(|p| p.1).fold(0.0, f64::max);
    ensure_eq!(f64::from(plf.lower_bound()), lower, "lower bound");
    ensure_eq!(f64::from(plf.upper_bound()), upper, "upper bound");
    ensure_eq!(plf.constant(), lower == upper, "constant");
    for t in instants(c, &[&f], 0.0, DAY) {
        let t = t + DAY * *c.pick(&[0.0, 1.0, 2.0, -1.0]);
        let v = f64::from(plf.evaluate(ts(t)));
        ensure!(close(v, at(&f, t), TOL), "f({}) = {} but got {}", t, at(&f, t), v);
        // the departure arriving at t + v
        let dep = f64::from(plf.inverse_evaluate(ts(t + v)));
        let arr = dep + at(&f, dep);
        ensure!(close(arr, t + v, TOL), "departing at {} should arrive at {} but arrives at {}", dep, t + v, arr);
    }

    // copies of a range, possibly continued
    let a = c.u32(0, 2 * P) as f64 / 1000.0;
    let a = if c.coin() { a } else { c.pick(&f).0 + DAY * c.u32(0, 1) as f64 };
    let len = if c.coin() { c.u32(1, P) as f64 / 1000.0 } else { c.u32(1, 60_000) as f64 / 1000.0 };
    let b = a + len;
    let mut target: Vec<TTFPoint> = Vec::new();
    plf.append_range(ts(a), ts(b), &mut target);
    let mut end = b;
    if c.coin() {
        end = b + c.u32(1, P) as f64 / 1000.0;
        plf.append_range(ts(b), ts(end), &mut target);
    }
    let got = pairs(&target);
    partial_valid(&got, "range")?;
    ensure!(got.len() >= 2 && got[0].0 <= a + 1e-5 && got[got.len() - 1].0 >= end - 1e-5, "range from {} to {} is covered by {:?}", a, end, got);
    ensure!(got[1].0 > a - 1e-5 && got[got.len() - 2].0 < end + 1e-5, "range from {} to {} contains superfluous points {:?}", a, end, got);
    for t in instants(c, &[&got], a, end) {
        ensure!(close(line(&got, t), at(&f, t), TOL), "range from {} to {}: f({}) = {} but got {}", a, end, t, at(&f, t), line(&got, t));
    }
    Ok(())
}

fn link(c: &mut Case) -> Result<(), String> {
    let (max_tt, k) = (*c.pick(&[MAX_TT, 1_000_000]), *c.pick(&[4usize, 10]));
    let f = tt(&plf_fl(c, k, max_tt, 0));
    let g = tt(&plf_fl(c, k, max_tt, 0));
    c.note(|| format!("{}; {}", desc("f", &f), desc("g", &g)));
    if f.len() > 1 || g.len() > 1 {
        c.nontrivial();
    }
    let (fp, gp) = (points(&f), points(&g));
    let h = PeriodicPiecewiseLinearFunction::new(&fp).link(&PeriodicPiecewiseLinearFunction::new(&gp));
    let h = pairs(&h);
    valid(&h, "link")?;
    PeriodicPiecewiseLinearFunction::new(&points(&h));
    for t in instants(c, &[&f, &h], 0.0, DAY) {
        let first = at(&f, t);
        let want = first + at(&g, t + first);
        ensure!(close(at(&h, t), want, TOL), "at {}: {} + {} = {} but got {} in {:?}", t, first, want - first, want, at(&h, t), h);
    }
    Ok(())
}

/// Do the functions come closer to each other than the epsilon of the implementation without meeting?
fn degenerate(f: &[(f64, f64)], g: &[(f64, f64)], lo: f64, hi: f64) -> bool {
    f.iter().chain(g).map(|p| p.0).filter(|&t| t > lo && t < hi).chain([lo, hi]).any(|t| {
        let d = (line(f, t) - line(g, t)).abs();
        d > 1e-9 && d < 1e-5
    })
}

fn check_merge(c: &mut Case, f: &[(f64, f64)], g: &[(f64, f64)], lo: f64, hi: f64, h: &[(f64, f64)], better: &[(Timestamp, bool)], tol: f64) -> Result<(), String> {
    ensure!(!better.is_empty() && close(f64::from(better[0].0), lo, 1e-5), "better functions start at {:?}", better);
    for w in better.windows(2) {
        ensure!(w[0].0 < w[1].0 && w[0].1 != w[1].1, "better functions {:?}", better);
    }
    ensure!(f64::from(better[better.len() - 1].0) <= hi + 1e-5, "better functions {:?}", better);
    let switches: F = better.iter().map(|b| (f64::from(b.0), 0.0)).collect();
    for t in instants(c, &[f, g, h, &switches], lo, hi) {
        let (x, y) = (line(f, t), line(g, t));
        let got = line(h, t);
        ensure!(close(got, x.min(y), tol), "at {}: min({}, {}) but got {} in {:?}", t, x, y, got, h);
        let i = better.partition_point(|b| f64::from(b.0) <= t).max(1) - 1;
        let (chosen, other) = if better[i].1 { (x, y) } else { (y, x) };
        ensure!(chosen <= other + tol, "at {}: the values are {} and {} but the {} is better ({:?})", t, x, y, if better[i].1 { "first" } else { "second" }, better);
    }
    Ok(())
}

/// Constant functions are stored as a single point.
fn spread(f: &[(f64, f64)]) -> F {
    if f.len() == 1 {
        vec![(0.0, f[0].1), (DAY, f[0].1)]
    } else {
        f.to_vec()
    }
}

fn merge(c: &mut Case) -> Result<(), String> {
    let (max_tt, k) = (*c.pick(&[MAX_TT, 1_000_000, 10_000]), *c.pick(&[4usize, 10]));
    let a = plf_fl(c, k, max_tt, 0);
    let b = second(c, &a, k, max_tt);
    let (f, g) = if c.coin() { (tt(&a), tt(&b)) } else { (tt(&b), tt(&a)) };
    c.note(|| format!("{}; {}", desc("f", &f), desc("g", &g)));
    if degenerate(&spread(&f), &spread(&g), 0.0, DAY) {
        return Ok(());
    }
    if f.len() > 1 || g.len() > 1 {
        c.nontrivial();
    }
    let (fp, gp) = (points(&f), points(&g));
    let mut buffer = Vec::new();
    let (h, better) = PeriodicPiecewiseLinearFunction::new(&fp).merge(&PeriodicPiecewiseLinearFunction::new(&gp), &mut buffer);
    ensure!(buffer.is_empty(), "buffer left with {} points", buffer.len());
    let h = pairs(&h);
    valid(&h, "merge")?;
    PeriodicPiecewiseLinearFunction::new(&points(&h));
    if better.len() > 1 {
        c.label("switches");
    }
    check_merge(c, &spread(&f), &spread(&g), 0.0, DAY, &spread(&h), &better, TOL)
}

enum Expr {
    Leaf(F),
    Link(Box<Expr>, Box<Expr>),
    Merge(Box<Expr>, Box<Expr>),
}

fn expr(c: &mut Case, depth: usize, steep: &mut usize) -> Expr {
    if depth == 0 || c.chance(1, 4) {
        let max_tt = *c.pick(&[1_000_000u32, 10_000, MAX_TT]);
        return Expr::Leaf(tt(&plf_fl(c, 5, max_tt, 0)));
    }
    let a = Box::new(expr(c, depth - 1, steep));
    let b = Box::new(expr(c, depth - 1, steep));
    if c.coin() {
        *steep += 1;
        Expr::Link(a, b)
    } else {
        Expr::Merge(a, b)
    }
}

fn expr_at(e: &Expr, t: f64) -> f64 {
    match e {
        Expr::Leaf(f) => at(f, t),
        Expr::Link(a, b) => {
            let x = expr_at(a, t);
            x + expr_at(b, t + x)
        }
        Expr::Merge(a, b) => expr_at(a, t).min(expr_at(b, t)),
    }
}

fn expr_plf(e: &Expr) -> Vec<TTFPoint> {
    match e {
        Expr::Leaf(f) => points(f),
        Expr::Link(a, b) => {
            let (a, b) = (expr_plf(a), expr_plf(b));
            PeriodicPiecewiseLinearFunction::new(&a).link(&PeriodicPiecewiseLinearFunction::new(&b))
        }
        Expr::Merge(a, b) => {
            let (a, b) = (expr_plf(a), expr_plf(b));
            PeriodicPiecewiseLinearFunction::new(&a).merge(&PeriodicPiecewiseLinearFunction::new(&b), &mut Vec::new()).0.into_vec()
        }
    }
}

fn expr_text(e: &Expr) -> String {
    match e {
        Expr::Leaf(f) => format!("{:?}", f),
        Expr::Link(a, b) => format!("link({}, {})", expr_text(a), expr_text(b)),
        Expr::Merge(a, b) => format!("merge({}, {})", expr_text(a), expr_text(b)),
    }
}

fn expression(c: &mut Case) -> Result<(), String> {
    let mut steep = 0;
    let e = expr(c, 3, &mut steep);
    c.note(|| expr_text(&e));
    let h = pairs(&expr_plf(&e));
    if h.len() > 1 {
        c.nontrivial();
    }
    valid(&h, "expression")?;
    PeriodicPiecewiseLinearFunction::new(&points(&h));
    for t in instants(c, &[&h], 0.0, DAY) {
        ensure!(close(at(&h, t), expr_at(&e, t), 1e-2), "at {}: {} but got {} in {:?}", t, expr_at(&e, t), at(&h, t), h);
    }
    Ok(())
}

/// Approximations and bounds.
fn bounds(c: &mut Case) -> Result<(), String> {
    let k = *c.pick(&[4usize, 30]);
    let mut raw = plf_fl(c, k, MAX_TT, 0);
    if c.coin() {
        // close to a line so that there is something to simplify
        let base = c.u32(3000, 1_000_000);
        let noise = *c.pick(&[500u32, 1000, 1500, 3000]);
        for p in raw.iter_mut() {
            p.1 = base + c.u32(0, 2 * noise) - noise;
        }
        limit_slopes(&mut raw);
    }
    let f = spread(&tt(&raw));
    c.note(|| desc("f", &f));
    if f.iter().any(|p| p.1 != f[0].1) {
        c.nontrivial();
    }
    let ps = points(&f);
    let plf = PeriodicPiecewiseLinearFunction::new(&ps);
    let (mut b1, mut b2) = (Vec::new(), Vec::new());
    let approx = pairs(&plf.approximate(&mut b1));
    let lower = pairs(&plf.lower_bound_ttf(&mut b1, &mut b2));
    let upper = pairs(&plf.upper_bound_ttf(&mut b1, &mut b2));
    let (l2, u2) = plf.bound_ttfs(&mut b1, &mut b2);
    ensure_eq!(pairs(&l2), lower, "lower bound computed with the upper bound");
    ensure_eq!(pairs(&u2), upper, "upper bound computed with the lower bound");
    ensure!(b1.is_empty() && b2.is_empty(), "buffers are left with {} and {} points", b1.len(), b2.len());
    for (h, what) in [(&approx, "approximation"), (&lower, "lower bound"), (&upper, "upper bound")] {
        ensure!(h.len() <= f.len(), "{} has more points: {:?}", what, h);
        valid_signed(h, what)?;
    }
    if approx.len() < f.len() {
        c.label("simplified");
    }
    let eps = f64::from(APPROX);
    for t in instants(c, &[&f], 0.0, DAY) {
        let v = at(&f, t);
        let (a, l, u) = (line(&approx, t), line(&lower, t), line(&upper, t));
        ensure!(close(a, v, eps + TOL), "approximation at {}: {} is not close to {}", t, a, v);
        ensure!(l <= v + TOL && l >= v - 4.0 * eps - TOL, "lower bound at {}: {} for {}", t, l, v);
        ensure!(u >= v - TOL && u <= v + 4.0 * eps + TOL, "upper bound at {}: {} for {}", t, u, v);
    }

    // the same for a part of the day
    if f.len() > 2 {
        let i = c.size(0, f.len() - 2);
        let j = c.size(i + 1, f.len() - 1);
        let part = &f[i..=j];
        let pp = points(part);
        let plf = PartialPiecewiseLinearFunction::new(&pp);
        let lower = pairs(&plf.lower_bound_ttf(&mut b1, &mut b2));
        let upper = pairs(&plf.upper_bound_ttf(&mut b1, &mut b2));
        let (l2, u2) = plf.bound_ttfs(&mut b1, &mut b2);
        ensure_eq!(pairs(&l2), lower, "lower bound of a part computed with the upper bound");
        ensure_eq!(pairs(&u2), upper, "upper bound of a part computed with the lower bound");
        ensure!(b1.is_empty() && b2.is_empty(), "buffers are left with {} and {} points", b1.len(), b2.len());
        for (h, what) in [(&lower, "lower bound of a part"), (&upper, "upper bound of a part")] {
            ensure!(h.len() <= part.len() && h[0].0 == part[0].0 && h[h.len() - 1].0 == part[part.len() - 1].0, "{}: {:?}", what, h);
            fifo_only(h, what)?;
        }
        for t in instants(c, &[part], part[0].0, part[part.len() - 1].0) {
            let v = line(part, t);
            let (l, u) = (line(&lower, t), line(&upper, t));
            ensure!(l <= v + TOL && l >= v - 4.0 * eps - TOL, "lower bound of a part at {}: {} for {}", t, l, v);
            ensure!(u >= v - TOL && u <= v + 4.0 * eps + TOL, "upper bound of a part at {}: {} for {}", t, u, v);
        }
    }
    Ok(())
}

fn fifo_only(f: &[(f64, f64)], what: &str) -> Result<(), String> {
    for w in f.windows(2) {
        ensure!(w[0].0 < w[1].0, "points of {} are not sorted: {:?}", what, w);
        ensure!(w[1].1 - w[0].1 >= w[0].0 - w[1].0 - 1e-5, "{} is not FIFO: {:?}", what, w);
    }
    Ok(())
}

/// Lower bounds may become slightly negative for travel times below the approximation error.
fn valid_signed(f: &[(f64, f64)], what: &str) -> Result<(), String> {
    ensure!(f[0].0 == 0.0 && f[f.len() - 1].0 == DAY, "{} does not cover the day: {:?}", what, f);
    ensure!(close(f[0].1, f[f.len() - 1].1, 1e-5), "{} is not periodic: {:?}", what, f);
    fifo_only(f, what)
}

/// A stretch of a function from `lo` to `hi` and beyond by up to one point on each side.
fn stretch(f: &[(f64, f64)], lo: f64, hi: f64) -> F {
    let i = f.partition_point(|p| p.0 <= lo + 1e-7).max(1) - 1;
    let j = f.partition_point(|p| p.0 < hi - 1e-7).min(f.len() - 1);
    f[i..=j].to_vec()
}

fn partial(c: &mut Case) -> Result<(), String> {
    let (max_tt, k) = (*c.pick(&[MAX_TT, 1_000_000, 10_000]), *c.pick(&[4usize, 10]));
    let a = plf_fl(c, k, max_tt, 0);
    let b = second(c, &a, k, max_tt);
    let (f, g) = (spread(&tt(&a)), spread(&tt(&b)));
    // at least a second long
    let lo = match c.draw(2) {
        0 => c.u32(0, P - 2000) as f64 / 1000.0,
        1 => c.pick(&f).0.min(DAY - 2.0),
        _ => c.pick(&g).0.min(DAY - 2.0),
    };
    let hi = match c.draw(3) {
        0 => lo + 1.0 + (DAY - lo - 1.0) * (c.u32(0, 1000) as f64 / 1000.0),
        1 => (lo + c.u32(1000, 60_000) as f64 / 1000.0).min(DAY),
        2 => c.pick(&f).0.max(lo + 1.0),
        _ => c.pick(&g).0.max(lo + 1.0),
    };
    c.note(|| format!("{}; {}; from {} to {}", desc("f", &f), desc("g", &g), lo, hi));
    if degenerate(&f, &g, lo, hi) {
        return Ok(());
    }
    if f.len() > 2 || g.len() > 2 {
        c.nontrivial();
    }
    let (fp, gp) = (points(&f), points(&g));
    let periodic = PeriodicPiecewiseLinearFunction::new(&fp);
    let whole = match PartialPiecewiseLinearFunction::try_from(&periodic) {
        Ok(p) => p,
        Err(_) => return Err("a function over the day is not convertible".into()),
    };
    ensure_eq!(pairs(&whole), f, "conversion to a partial function");
    match PeriodicPiecewiseLinearFunction::try_from(whole) {
        Ok(p) => ensure_eq!(pairs(&p), f, "conversion to a periodic function"),
        Err(_) => return Err("a partial function over the day is not convertible".into()),
    }

    let sf = whole.get_sub_plf(ts(lo), ts(hi));
    let sf = match sf {
        Some(s) => s,
        None => return Err("the function has no such part".into()),
    };
    ensure_eq!(pairs(&sf), stretch(&f, lo, hi), "part of the function");
    let sg = PartialPiecewiseLinearFunction::new(&gp).sub_plf(ts(lo), ts(hi));
    ensure_eq!(pairs(&sg), stretch(&g, lo, hi), "part of the function");
    if lo > 1.0 {
        ensure!(sf[0].at.fuzzy_leq(ts(lo - 1.0)) || sf.get_sub_plf(ts(lo - 1.0), ts(hi)).is_none(), "a part which is not covered");
    }
    for t in instants(c, &[&f], lo, hi) {
        let v = f64::from(sf.eval(ts(t)));
        ensure!(close(v, line(&f, t), TOL), "f({}) = {} but got {}", t, line(&f, t), v);
    }

    let mut buffer = Vec::new();
    let (h, better) = sf.merge(&sg, ts(lo), ts(hi), &mut buffer);
    ensure!(buffer.is_empty(), "buffer left with {} points", buffer.len());
    let h = pairs(&h);
    partial_valid(&h, "merge")?;
    ensure!(h[0].0 <= lo + 1e-5 && h[h.len() - 1].0 >= hi - 1e-5, "merge covers {} to {}", h[0].0, h[h.len() - 1].0);
    PartialPiecewiseLinearFunction::new(&points(&h));
    if better.len() > 1 {
        c.label("switches");
    }
    check_merge(c, &f, &g, lo, hi, &h, &better, TOL)?;

    // cut to the range
    let mut cut = points(&stretch(&f, lo, hi));
    if PartialPiecewiseLinearFunction::crop_in_place_possible(&cut, ts(lo), ts(hi)) {
        PartialPiecewiseLinearFunction::crop(&mut cut, ts(lo), ts(hi));
        let cut = pairs(&cut);
        ensure!(close(cut[0].0, lo, 1e-5) && close(cut[cut.len() - 1].0, hi, 1e-5), "cut from {} to {}", cut[0].0, cut[cut.len() - 1].0);
        for t in instants(c, &[&cut], cut[0].0, cut[cut.len() - 1].0) {
            ensure!(close(line(&cut, t), line(&f, t), TOL), "cut function: f({}) = {} but got {}", t, line(&f, t), line(&cut, t));
        }
    } else {
        return Err("the part is not possible to cut".into());
    }
    Ok(())
}

/// Real-time traffic: one travel time until it is over, then FIFO back to the prediction.
fn updated(c: &mut Case) -> Result<(), String> {
    let raw = plf_fl(c, 8, 3_000_000, 0);
    let f = tt(&raw);
    let t_live = c.u32(0, P - 1);
    let soon = t_live + *c.pick(&[1000u32, 60_000, 3_600_000, 40_000_000]);
    let live = match c.draw(2) {
        0 => c.u32(0, 3_000_000),
        1 => (at(&f, soon as f64 / 1000.0) * 1000.0) as u32,
        _ => c.pick(&raw).1,
    };
    let has = !c.chance(1, 6);
    c.note(|| format!("{}; t_live {} live {:?}", desc("f", &f), t_live, if has { Some((live, soon)) } else { None }));
    if has {
        c.nontrivial();
    }
    let (t0, t1, v) = (t_live as f64 / 1000.0, soon as f64 / 1000.0, live as f64 / 1000.0);
    let (a, tt): (Vec<u32>, Vec<u32>) = raw.iter().cloned().unzip();
    let g = TDGraph::new(vec![0, 1, 1], vec![1], vec![0, raw.len() as u32], a, tt);
    let lg = LiveGraph::new(g, ts(t0), &[if has { Some((live, soon)) } else { None }]);
    let plf = lg.travel_time_function(0);

    // until t1 as measured, then as soon as FIFO allows as predicted
    let want = |t: f64| -> f64 {
        if !has {
            return at(&f, t);
        }
        if t <= t1 {
            return v;
        }
        let pred = at(&f, t);
        // the first point in time at which the line back meets the prediction
        if close(at(&f, t1), v, 1e-6) {
            return pred;
        }
        let up = at(&f, t1) > v;
        let back = |t: f64| if up { v + (t - t1) } else { v - (t - t1) };
        let mut ts: Vec<f64> = f.iter().flat_map(|p| (0..4).map(move |d| p.0 + d as f64 * DAY)).filter(|&x| x > t1 && x < t).collect();
        ts.push(t);
        ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let met = ts.iter().any(|&x| if up { at(&f, x) <= back(x) + 1e-7 } else { at(&f, x) >= back(x) - 1e-7 });
        if met {
            pred
        } else {
            back(t)
        }
    };
    if has {
        let sw = f64::from(plf.t_switch().unwrap());
        ensure!(sw >= t1 - 1e-5, "the prediction applies from {} on", sw);
        let lower = f.iter().map(|p| p.1).fold(v, f64::min);
        let upper = f.iter().map(|p| p.1).fold(v, f64::max);
        ensure!(f64::from(plf.lower_bound()) <= lower + TOL && f64::from(plf.upper_bound()) >= upper - TOL, "bounds {:?} {:?}", plf.lower_bound(), plf.upper_bound());
    } else {
        ensure!(plf.t_switch().is_none() && plf.update_plf().is_none(), "there is no live data");
    }
    let around: F = vec![(t0, 0.0), (t1, 0.0), (t1 + 1.0, 0.0), (t1 + v, 0.0)];
    for t in instants(c, &[&f, &around], t0, t1 + 2.0 * v + 2.0) {
        let got = f64::from(plf.evaluate(ts(t)));
        ensure!(close(got, want(t), TOL * 10.0), "at {}: {} but got {}", t, want(t), got);
    }
    let a = t0 + c.u32(0, 50_000_000) as f64 / 1000.0;
    let a = if c.chance(1, 4) { t0 } else { a };
    let b = a + if c.coin() { c.u32(1, P) } else { c.u32(1, 60_000) } as f64 / 1000.0;
    let mut target: Vec<TTFPoint> = Vec::new();
    plf.append_range(ts(a), ts(b), &mut target);
    let got = pairs(&target);
    partial_valid(&got, "range")?;
    ensure!(got[0].0 <= a + 1e-5 && got[got.len() - 1].0 >= b - 1e-5, "range from {} to {} is covered by {:?}", a, b, got);
    for t in instants(c, &[&got], a, b) {
        ensure!(close(line(&got, t), want(t), TOL * 10.0), "range from {} to {}: {} at {} but got {} in {:?}", a, b, want(t), t, line(&got, t), got);
    }
    Ok(())
}

/// Driving along paths, forward and backward.
fn paths(c: &mut Case) -> Result<(), String> {
    let k = c.size(1, 4);
    let max_tt = *c.pick(&[1_000_000u32, 50_000_000]);
    let raws: Vec<Raw> = (0..k).map(|_| plf_fl(c, 5, max_tt, 0)).collect();
    let fs: Vec<F> = raws.iter().map(tt).collect();
    c.note(|| format!("path of {:?}", fs));
    if raws.iter().any(|r| r.len() > 1) {
        c.nontrivial();
    }
    let first_out: Vec<u32> = (0..=k as u32).chain([k as u32]).collect();
    let head: Vec<u32> = (1..=k as u32).collect();
    let mut first = vec![0u32];
    let (mut a, mut v) = (Vec::new(), Vec::new());
    for r in &raws {
        a.extend(r.iter().map(|p| p.0));
        v.extend(r.iter().map(|p| p.1));
        first.push(a.len() as u32);
    }
    let g = TDGraph::new(first_out, head, first, a, v);
    let path: Vec<u32> = (0..k as u32).collect();
    let dep = c.u32(0, 2 * P) as f64 / 1000.0;
    let mut t = dep;
    let mut nodes = vec![(0u32, t)];
    for (i, f) in fs.iter().enumerate() {
        t += at(f, t);
        nodes.push((i as u32 + 1, t));
    }
    let got = f64::from(TDGraphTrait::evaluate_path(&g, &path, ts(dep)));
    ensure!(close(got, t - dep, 1e-2), "path takes {} but got {}", t - dep, got);
    let timed = g.get_path_with_times(ts(dep), &path);
    ensure_eq!(timed.iter().map(|x| x.0).collect::<Vec<_>>(), (0..=k as u32).collect::<Vec<_>>(), "nodes");
    for (x, y) in timed.iter().zip(&nodes) {
        ensure!(close(f64::from(x.1), y.1, 1e-2), "path {:?} but got {:?}", nodes, timed);
    }
    g.check_path(&timed);
    let back = f64::from(g.inverse_evaluate_path(&path, ts(t)));
    let mut arr = back;
    for f in &fs {
        arr += at(f, arr);
    }
    ensure!(close(arr, t, 1e-2), "departing at {} for {} arrives at {}", back, t, arr);
    Ok(())
}
