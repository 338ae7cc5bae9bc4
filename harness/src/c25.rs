//! C25: time dependent sampling (TD-S) and merging of metrics.

use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::customizable_contraction_hierarchy::CCH;
use rust_road_router::algo::*;
use rust_road_router::algo::{metric_merging::merge, time_dependent_sampling::Server};
use rust_road_router::datastr::graph::time_dependent::*;

pub static PROP: Property = Property {
    id: "C25",
    rule: "the function changes within the window / some query has different connected end points on a network with changing travel times / groups with several metrics are formed and remain apart",
    subs: &[
        Sub { name: "average", f: average, quick: 3_000_000, thorough: 60_000_000, big: false },
        Sub { name: "sampling", f: sampling, quick: 45_000, thorough: 1_500_000, big: false },
        Sub { name: "sampling_big", f: sampling, quick: 8_000, thorough: 200_000, big: true },
        Sub { name: "merging", f: merging, quick: 300_000, thorough: 8_000_000, big: false },
        Sub { name: "merging_big", f: merging, quick: 4_000, thorough: 100_000, big: true },
    ],
};

fn shape(raw: &Raw) -> TdG {
    TdG { n: 2, edges: vec![(0, 1, raw.clone())] }
}

/// Twice the integral over [a, b) within one period, as fraction rounded to f64.
fn twice_integral(raw: &Raw, a: u32, b: u32) -> f64 {
    let mut at: Vec<u32> = full(raw).iter().map(|p| p.0).filter(|&t| a < t && t < b).collect();
    at.insert(0, a);
    at.push(b);
    at.windows(2)
        .map(|w| {
            let value = |t: u32| if t == P { full(raw)[0].1 as f64 } else { let (x, y) = exact(raw, t as u64); x as f64 / y as f64 };
            (value(w[0]) + value(w[1])) * (w[1] - w[0]) as f64
        })
        .sum()
}

fn average(c: &mut Case) -> Result<(), String> {
    let max = *c.pick(&[7_200_000u32, 1000, P]);
    let raw = plf(c, 8, max);
    let start = instant(c, &[&raw]);
    let end = if c.chance(1, 10) { start } else { instant(c, &[&raw]) };
    c.note(|| format!("{:?} from {} to {}", raw, start, end));
    let g = shape(&raw).td();
    let f = g.travel_time_function(0);
    let got = f.average(WrappingRange::new(start..end)) as f64;
    let (twice, len) = if start < end {
        (twice_integral(&raw, start, end), end - start)
    } else {
        (twice_integral(&raw, start, P) + twice_integral(&raw, 0, end), P - start + end)
    };
    let want = twice / 2.0 / len as f64;
    ensure!((got - want).abs() <= 2.0, "average from {} to {}: {} instead of {}", start, end, got, want);
    ensure!(got >= f.lower_bound() as f64 && got <= f.upper_bound() as f64, "average {} not within the bounds", got);
    if raw.iter().any(|p| p.0 > start && p.0 < end) {
        c.nontrivial();
    }
    Ok(())
}

fn sampling(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { min_n: 2, max_n: if c.big { 60 } else { 10 }, ..CFG };
    let mut g = graph(c, &cfg);
    if !g.edges.iter().any(|e| e.0 != e.1) {
        g.edges.push((0, 1, 1));
        g.edges.sort_by_key(|e| e.0);
    }
    let tdg = td_from(c, &g, 5, if c.big { 1_500_000 } else { 7_200_000 }, 1);
    c.note(|| tdg.desc());
    let order = order(c, &g);
    let cch = CCH::fix_order_and_build(&g.owned(), order);
    let td = tdg.td();
    let hour = P / 24;
    let windows: Vec<G> = [(22, 5), (7, 10), (11, 15), (16, 19)]
        .iter()
        .map(|&(a, b)| {
            let mut i = 0;
            tdg.with(|_, _| {
                i += 1;
                td.travel_time_function(i - 1).average(WrappingRange::new(a * hour..b * hour))
            })
        })
        .collect();
    let changing = tdg.edges.iter().any(|e| e.2.iter().any(|p| p.1 != e.2[0].1));
    let mut server = Server::new(td, &cch);
    let mut better = false;
    for _ in 0..c.size(1, 6) {
        let n = tdg.n as u32;
        let (s, t) = (c.u32(0, n - 1), c.u32(0, n - 1));
        let raws: Vec<&Raw> = tdg.edges.iter().map(|e| &e.2).collect();
        let dep = instant(c, &raws);
        c.note(|| format!("query {}->{} at {}", s, t, dep));
        let ev = |e: usize, t: u64| Some(eval(&tdg.edges[e].2, t));
        let best = tdg.arrivals(s, dep as u64, &ev)[t as usize];
        let mut result = server.td_query(TDQuery { from: s, to: t, departure: dep });
        let dist = result.distance();
        ensure_eq!(dist.is_some(), best != INF, "{}->{} found", s, t);
        let dist = match dist {
            Some(d) => d as u64,
            None => continue,
        };
        if s != t && changing {
            c.nontrivial();
        }
        ensure!(dep as u64 + dist >= best, "{}->{} at {}: {} although {} is optimal", s, t, dep, dist, best - dep as u64);
        let path = result.node_path().ok_or("no path")?;
        ensure!(path.first() == Some(&s) && path.last() == Some(&t), "path {:?} from {} to {}", path, s, t);
        let mut at = dep as u64;
        for w in path.windows(2) {
            at += tdg.edges.iter().enumerate().filter(|(_, e)| (e.0, e.1) == (w[0], w[1])).map(|(i, _)| eval(&tdg.edges[i].2, at)).min().ok_or_else(|| format!("missing arc {:?}", w))?;
        }
        ensure_eq!(at, dep as u64 + dist, "arrival with path {:?}", path);
        better |= at > best;

        // not later than the latest arrival with any of the shortest paths of some window
        for (i, w) in windows.iter().enumerate() {
            let d = w.dists(s);
            if w.edges.iter().any(|e| e.2 == 0) {
                continue;
            }
            let mut nodes: Vec<u32> = (0..n).filter(|&v| d[v as usize] != INF).collect();
            nodes.sort_by_key(|&v| d[v as usize]);
            let mut latest = vec![0u64; n as usize];
            latest[s as usize] = dep as u64;
            for &u in &nodes {
                for (e, &(a, b, x)) in w.edges.iter().enumerate() {
                    if a == u && d[u as usize] + x as u64 == d[b as usize] {
                        let arr = latest[u as usize] + eval(&tdg.edges[e].2, latest[u as usize]);
                        latest[b as usize] = latest[b as usize].max(arr);
                    }
                }
            }
            ensure!(at <= latest[t as usize], "{}->{} at {}: arrival {} but the route of window {} arrives by {}", s, t, dep, at, i, latest[t as usize]);
        }
    }
    if better {
        c.label("heuristic route is not optimal");
    }
    Ok(())
}

fn merging(c: &mut Case) -> Result<(), String> {
    let k = if c.big { c.size(2, 25) } else { c.size(1, 7) };
    let m = if c.big { c.size(1, 300) } else { c.size(0, 8) };
    let max = *c.pick(&[3u32, 1000, P, u32::MAX / 2]);
    let target = c.size(0, k + 1);
    let mut metrics: Vec<Vec<u32>> = Vec::new();
    for _ in 0..k {
        let metric = if !metrics.is_empty() && c.chance(1, 3) {
            // similar to an earlier one
            let other = c.pick(&metrics).clone();
            other.into_iter().map(|w| if c.chance(1, 3) { c.u32(0, max) } else { w }).collect()
        } else {
            (0..m).map(|_| c.u32(0, max)).collect()
        };
        metrics.push(metric);
    }
    c.note(|| format!("{:?} to {}", metrics, target));
    let refs: Vec<&[u32]> = metrics.iter().map(|m| &m[..]).collect();
    let got = merge(&refs, target);

    let mut all: Vec<usize> = got.iter().flatten().cloned().collect();
    all.sort_unstable();
    ensure_eq!(all, (0..k).collect::<Vec<_>>(), "every metric in exactly one group");
    ensure!(got.iter().all(|g| !g.is_empty()), "empty group");
    ensure_eq!(got.len(), k.min(target.max(1)), "number of groups");
    if got.len() > 1 && got.iter().any(|g| g.len() > 1) {
        c.nontrivial();
    }

    // always merge the two groups with the most similar minima
    let mut groups: Vec<(Vec<usize>, Vec<u32>)> = metrics.iter().enumerate().map(|(i, m)| (vec![i], m.clone())).collect();
    let mut tie = false;
    while groups.len() > target.max(1) {
        let mut pairs = Vec::new();
        for i in 0..groups.len() {
            for j in i + 1..groups.len() {
                let diff: u128 = groups[i].1.iter().zip(&groups[j].1).map(|(&a, &b)| (a.abs_diff(b) as u128).pow(2)).sum();
                pairs.push((diff.min(u64::MAX as u128), i, j));
            }
        }
        pairs.sort_unstable();
        tie |= pairs.len() > 1 && pairs[0].0 == pairs[1].0;
        let (_, i, j) = pairs[0];
        let other = groups.remove(j);
        groups[i].0.extend(other.0);
        for (a, b) in groups[i].1.iter_mut().zip(other.1) {
            *a = (*a).min(b);
        }
    }
    if tie {
        // any choice is fine
        c.label("tie");
        return Ok(());
    }
    let norm = |mut g: Vec<Vec<usize>>| {
        g.iter_mut().for_each(|g| g.sort_unstable());
        g.sort();
        g
    };
    ensure_eq!(norm(got), norm(groups.into_iter().map(|g| g.0).collect()), "groups");
    Ok(())
}
