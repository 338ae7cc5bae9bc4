//! Integer travel time functions.

use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::util::in_range_option::InRangeOption;

pub static PROP: Property = Property {
    id: "C12",
    rule: "the function has at least two breakpoints with different travel times and is evaluated (or bounded, or averaged) away from its breakpoints",
    subs: &[
        Sub { name: "plf", f: functions, quick: 5_000_000, thorough: 400_000_000, big: false },
        Sub { name: "plf_big", f: functions, quick: 500_000, thorough: 20_000_000, big: true },
    ],
};

pub fn close(got: u64, (num, den): (i128, i128), what: &str) -> Result<(), String> {
    let diff = got as i128 * den - num;
    ensure!(diff.abs() < den, "{}: got {}, but the exact value is {}/{}", what, got, num, den);
    Ok(())
}

fn functions(c: &mut Case) -> Result<(), String> {
    let mp = if c.big { 40 } else { 6 };
    // several functions in one graph
    let k = c.size(1, 3);
    let raws: Vec<Raw> = (0..k).map(|_| plf(c, mp, 100_000_000)).collect();
    let tdg = TdG { n: 2, edges: raws.iter().map(|r| (0, 1, r.clone())).collect() };
    let graph = tdg.td();
    ensure_eq!(graph.num_arcs(), k, "number of arcs");
    c.note(|| format!("functions {:?}", raws));
    ensure_eq!(graph.num_constant(), raws.iter().filter(|r| r.len() == 1).count(), "number of constant functions");
    for q in 0..c.size(1, 8) {
        let e = c.size(0, k - 1);
        let raw = &raws[e];
        let varied = raw.iter().any(|p| p.1 != raw[0].1);
        let f = graph.travel_time_function(e as u32);
        let lo = raw.iter().map(|p| p.1).min().unwrap();
        let hi = raw.iter().map(|p| p.1).max().unwrap();
        if q == 0 {
            ensure_eq!(f.lower_bound(), lo, "lower bound");
            ensure_eq!(f.upper_bound(), hi, "upper bound");
            for &(x, y) in raw {
                ensure_eq!(f.eval(x), y, "value at the breakpoint {}", x);
            }
        }
        let t = instant(c, &raws.iter().collect::<Vec<_>>());
        match c.draw(3) {
            0 => {
                let abs = t + P * c.u32(0, 3);
                c.note(|| format!("evaluate function {} at {}", e, abs));
                let v = f.eval(abs);
                if varied && raw.iter().all(|p| p.0 != t) {
                    c.nontrivial();
                }
                close(v as u64, exact(raw, abs as u64), &format!("evaluation at {}", abs))?;
                ensure!(lo <= v && v <= hi, "value {} at {} is outside of the bounds [{}, {}]", v, abs, lo, hi);
                // the rounded function is still FIFO
                let later = abs + c.u32(1, 3);
                ensure!(f.eval(later) as u64 + later as u64 >= v as u64 + abs as u64, "overtaking between {} and {}", abs, later);
            }
            1 => {
                let start = t + P * c.u32(0, 2);
                let len = match c.draw(3) {
                    0 => c.u32(1, 10),
                    1 => 3_600_000 * c.u32(1, 24),
                    2 => c.u32(1, P),
                    _ => c.u32(P, 3 * P),
                };
                let end = start + len;
                c.note(|| format!("bounds of function {} in {}..{}", e, start, end));
                if varied && len < P {
                    c.nontrivial();
                }
                // breakpoints within the window and its ends are enough for piecewise linear functions
                let mut pts = vec![start as u64, end as u64];
                for &(x, _) in &full(raw) {
                    for r in 0..6u64 {
                        let x = x as u64 + r * P as u64;
                        if start as u64 <= x && x <= end as u64 {
                            pts.push(x);
                        }
                    }
                }
                let want_lo = pts.iter().map(|&x| eval(raw, x)).min().unwrap();
                let want_hi = pts.iter().map(|&x| eval(raw, x)).max().unwrap();
                let got_lo = f.lower_bound_in_range(start..end) as u64;
                let got_hi = f.upper_bound_in_range(start..end) as u64;
                ensure!(got_lo <= want_lo && got_lo + 1 >= want_lo, "lower bound in {}..{}: {} but the minimum is {}", start, end, got_lo, want_lo);
                ensure!(got_hi >= want_hi && got_hi <= want_hi + 1, "upper bound in {}..{}: {} but the maximum is {}", start, end, got_hi, want_hi);
            }
            2 => {
                let end = instant(c, &raws.iter().collect::<Vec<_>>());
                c.note(|| format!("average of function {} from {} to {}", e, t, end));
                if varied {
                    c.nontrivial();
                }
                let avg = f.average(WrappingRange::new(t..end)) as f64;
                let to = if t < end { end as u64 } else { end as u64 + P as u64 };
                let mut pts = vec![t as u64, to];
                for &(x, _) in &full(raw) {
                    for r in 0..3u64 {
                        let x = x as u64 + r * P as u64;
                        if (t as u64) < x && x < to {
                            pts.push(x);
                        }
                    }
                }
                pts.sort_unstable();
                pts.dedup();
                let val = |x: u64| {
                    let (a, b) = exact(raw, x);
                    a as f64 / b as f64
                };
                let area: f64 = pts.windows(2).map(|p| (p[1] - p[0]) as f64 * (val(p[0]) + val(p[1])) / 2.0).sum();
                let want = area / (to - t as u64) as f64;
                ensure!((avg - want).abs() <= 2.0, "average from {} to {}: {} but the mean is {}", t, to, avg, want);
                let lo = pts.iter().map(|&x| eval(raw, x)).min().unwrap() as f64;
                let hi = pts.iter().map(|&x| eval(raw, x)).max().unwrap() as f64;
                ensure!(lo <= avg + 1.0 && avg <= hi, "average {} from {} to {} outside of the bounds [{}, {}]", avg, t, to, lo, hi);
            }
            _ => live(c, raw, t)?,
        }
    }
    Ok(())
}

/// Predictions combined with live reports stay FIFO, switch at the right time, and respect their bounds.
fn live(c: &mut Case, raw: &Raw, t: u32) -> Result<(), String> {
    let tdg = TdG { n: 2, edges: vec![(0, 1, raw.clone())] };
    let soon = t + if c.coin() { c.u32(0, 20) } else { c.u32(0, 7_200_000) };
    let reported = match c.draw(3) {
        0 => c.u32(0, 10),
        1 => c.u32(0, 4_000_000),
        2 => {
            let v = eval(raw, soon as u64) as u32;
            v + c.u32(0, 40)
        }
        _ => INFINITY,
    };
    let now = t.saturating_sub(c.u32(0, 1_000_000));
    c.note(|| format!("live value {} until {}, now {}", reported, soon, now));
    let tt_soon = eval(raw, soon as u64);
    let pess = PessimisticLiveTDGraph::new(tdg.td(), vec![InRangeOption::some((reported, soon))]);
    let simple = if reported < INFINITY { Some(LiveTDGraph::new(tdg.td(), soon, vec![InRangeOption::some(reported)])) } else { None };
    let mut probe = vec![now, soon, soon + 1, soon.saturating_sub(1), t];
    for _ in 0..4 {
        let d = *c.pick(&[5u32, 1000, 3_600_000, P]);
        probe.push(if c.coin() { soon + c.u32(0, d) } else { soon.saturating_sub(c.u32(0, d)) });
    }
    if let Some(s) = pess.live_starts_switching_at(0) {
        probe.push(s);
    }
    probe.retain(|&x| x >= now);
    probe.sort_unstable();
    c.nontrivial();
    let mut last = 0u64;
    let mut last_simple = 0u64;
    let until = now + *c.pick(&[59 * 60 * 1000u32, 1, 60_000, 7_200_000]);
    let lower = pess.live_lower_bound(0, now, until) as u64;
    let upper = pess.upper_bound(0, now) as u64;
    for &x in &probe {
        let pred = eval(raw, x as u64);
        // pessimistic: the report holds until it ends, but waiting for its end is an alternative
        let want = if x < soon { pred.max((reported as u64).min(tt_soon + (soon - x) as u64)) } else { pred };
        let got = pess.eval(0, x) as u64;
        ensure!(got.abs_diff(want) <= 1, "pessimistic live travel time at {}: {} instead of {}", x, got, want);
        ensure!(got + x as u64 >= last, "pessimistic live travel time at {} overtakes", x);
        last = got + x as u64;
        ensure!(upper >= got, "live upper bound {} but at {} the travel time is {}", upper, x, got);
        if x < until {
            ensure!(lower <= got, "live lower bound {} for {}..{} but at {} the travel time is {}", lower, now, until, x, got);
        }
        if let Some(s) = &simple {
            let want = if x < soon {
                reported as u64
            } else if tt_soon < reported as u64 {
                pred.max((reported as u64 + soon as u64).saturating_sub(x as u64))
            } else {
                pred.min(reported as u64 + (x - soon) as u64)
            };
            let got = s.eval(0, x) as u64;
            ensure!(got.abs_diff(want) <= 1, "live travel time at {}: {} instead of {}", x, got, want);
            ensure!(got + x as u64 >= last_simple, "live travel time at {} overtakes", x);
            last_simple = got + x as u64;
        }
    }
    Ok(())
}
