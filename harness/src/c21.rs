//! Unbounded-stretch checks, traffic-aware routing and penalty based alternatives.

use crate::gen::*;
use crate::c13::{live_time, pess_eval, pess_graph, reports, time_ranges, TdPot};
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::ch_potentials::penalty::{Penalty, PenaltyIterative};
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::generic_dijkstra::*;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::minimal_nonshortest_subpaths::*;
use rust_road_router::algo::td_astar::{MultiMetric, MultiMetricPreprocessed};
use rust_road_router::algo::traffic_aware::{td_live, time_dependent as td_plain, *};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::report::*;
use std::collections::BTreeMap;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Property = Property {
    id: "C21",
    rule: "some path of the history has a sub-path which is too long, or the constrained/alternative route differs from the shortest path",
    subs: &[
        Sub { name: "ubs", f: ubs, quick: 60_000, thorough: 1_000_000, big: false },
        Sub { name: "ubs_big", f: ubs, quick: 12_000, thorough: 200_000, big: true },
        Sub { name: "covered", f: covered, quick: 200_000, thorough: 5_000_000, big: false },
        Sub { name: "blocked", f: blocked, quick: 200_000, thorough: 3_000_000, big: false },
        Sub { name: "traffic", f: traffic, quick: 40_000, thorough: 500_000, big: false },
        Sub { name: "td_traffic", f: td_traffic, quick: 8_000, thorough: 300_000, big: false },
        Sub { name: "live_traffic", f: live_traffic, quick: 8_000, thorough: 300_000, big: false },
        Sub { name: "penalty", f: penalty, quick: 15_000, thorough: 200_000, big: false },
        Sub { name: "penalty_big", f: penalty, quick: 5_000, thorough: 60_000, big: true },
    ],
};

/// Run with reporting enabled and return the reported numbers (top level only).
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, BTreeMap<&'static str, serde_json::Value>) {
    thread_local! {
        static CLEAN: std::cell::Cell<bool> = std::cell::Cell::new(false);
    }
    if !CLEAN.with(|c| c.replace(false)) {
        // not dropped: that would print everything
        std::mem::forget(enable_reporting("rrr-pbt"));
        std::mem::forget(block_reporting());
    }
    let guard = capture_reporting();
    let res = f();
    let mut values = BTreeMap::new();
    for (k, v) in guard.reported().unwrap() {
        if let ReportingValue::Value(v) = v {
            values.insert(k, v);
        }
    }
    CLEAN.with(|c| c.set(true));
    (res, values)
}

fn gr(c: &mut Case, max_n: usize, parallel: bool) -> G {
    let cfg = Cfg { min_n: 2, max_n, zero: false, parallel, max_weight: 100_000, ..CFG };
    let mut g = graph(c, &cfg);
    // the stretch is only defined for positive distances and sums have to stay far below infinity
    for e in &mut g.edges {
        e.2 = e.2.min(1_000_000);
    }
    if !g.edges.iter().any(|e| e.0 != e.1) {
        g.edges.push((0, 1, 1));
        g.edges.sort_by_key(|e| e.0);
    }
    g
}

/// Reference: node sequence of some shortest path.
fn shortest_path(g: &G, d: &[Vec<u64>], s: u32, t: u32, skip: usize) -> Vec<u32> {
    let mut path = vec![s];
    let mut v = s;
    while v != t {
        let next: Vec<u32> = g
            .edges
            .iter()
            .filter(|e| e.0 == v && d[e.1 as usize][t as usize] != INF && e.2 as u64 + d[e.1 as usize][t as usize] == d[v as usize][t as usize])
            .map(|e| e.1)
            .collect();
        v = next[skip % next.len()];
        path.push(v);
    }
    path
}

fn random_path(c: &mut Case, g: &G, d: &[Vec<u64>], len: usize) -> Vec<u32> {
    let n = g.n as u32;
    let s = c.u32(0, n - 1);
    let mut path = vec![s];
    let simple = c.chance(7, 8);
    match c.draw(2) {
        0 => {
            // random walk
            for _ in 0..c.size(0, len) {
                let v = *path.last().unwrap();
                let next: Vec<u32> = g.edges.iter().filter(|e| e.0 == v && !(simple && path.contains(&e.1))).map(|e| e.1).collect();
                if next.is_empty() {
                    break;
                }
                path.push(*c.pick(&next));
            }
        }
        k => {
            // shortest paths via other nodes
            for _ in 0..c.size(1, k as usize + 1) {
                let v = *path.last().unwrap();
                let t = c.u32(0, n - 1);
                if d[v as usize][t as usize] == INF {
                    continue;
                }
                let skip = c.size(0, 2);
                let part = shortest_path(g, d, v, t, skip);
                if simple && part[1..].iter().any(|x| path.contains(x)) {
                    continue;
                }
                path.extend_from_slice(&part[1..]);
            }
        }
    }
    path
}

/// The definition: minimal sub-paths which are more than (1 + eps) times as long as the shortest path between their end points.
fn violations(g: &G, d: &[Vec<u64>], path: &[u32], eps: f64) -> Vec<Range<usize>> {
    let k = path.len();
    let mut cycles = Vec::new();
    for j in 0..k {
        if let Some(i) = (0..j).rev().find(|&i| path[i] == path[j]) {
            cycles.push(i..j);
        }
    }
    if !cycles.is_empty() {
        return cycles;
    }
    let mut pos = vec![0u64];
    for w in path.windows(2) {
        pos.push(pos.last().unwrap() + g.min_arc(w[0], w[1]).unwrap() as u64);
    }
    let bad = |i: usize, j: usize| {
        let sp = d[path[i] as usize][path[j] as usize];
        pos[j] - pos[i] - sp > (sp as f64 * eps) as u64
    };
    let mut all = Vec::new();
    for i in 0..k {
        for j in i + 1..k {
            if bad(i, j) {
                all.push(i..j);
            }
        }
    }
    let minimal: Vec<_> = all
        .iter()
        .filter(|r| !all.iter().any(|o| o != *r && o.start >= r.start && o.end <= r.end))
        .cloned()
        .collect();
    minimal
}

fn sorted(mut v: Vec<Range<usize>>) -> Vec<Range<usize>> {
    v.sort_by_key(|r| (r.start, r.end));
    v
}

const EPS: &[f64] = &[0.0, 0.1, 0.25, 0.5, 1.0, 0.01, 3.0];

fn ubs(c: &mut Case) -> Result<(), String> {
    let big = c.big;
    let g = gr(c, if big { 60 } else { 10 }, true);
    c.note(|| g.desc());
    let graph = g.owned();
    let d = g.all_dists();
    let connected = weakly_connected(&g);
    let order = order(c, &g);
    let cch = CCH::fix_order_and_build(&graph, order);
    let data = CCHPotData::new(&cch, &graph);
    let mut tree = MinimalNonShortestSubPaths::new(&data, graph.borrowed());
    let mut sse = MinimalNonShortestSubPathsSSERphast::new(&data, graph.borrowed());
    let mut dij = MinimalNonShortestSubPathsDijkstra::new(graph.borrowed());
    for _ in 0..c.size(1, 8) {
        let path = random_path(c, &g, &d, if big { 30 } else { 9 });
        let eps = *c.pick(EPS);
        let want = sorted(violations(&g, &d, &path, eps));
        c.note(|| format!("path {:?} eps {}: {:?}", path, eps, want));
        if !want.is_empty() {
            c.nontrivial();
        }
        for k in 0..4 {
            let (what, got) = match k {
                0 => ("tree", tree.find_ubs_violating_subpaths(&path, eps)),
                1 => ("naive", tree.find_ubs_violating_subpaths_lazy_rphast_naive(&path, eps)),
                2 => ("sse rphast", sse.find_ubs_violating_subpaths_sse_rphast(&path, eps)),
                _ => ("dijkstra", dij.find_ubs_violating_subpaths(&path, eps)),
            };
            ensure_eq!(sorted(got), want, "{}: violating sub-paths of {:?} with eps {}", what, path, eps);
        }
        let simple = (0..path.len()).all(|i| !path[..i].contains(&path[i]));
        match tree.fix_violating_subpaths(&path, eps) {
            Ok(None) => ensure!(want.is_empty(), "nothing was fixed on {:?} with eps {} but there are violations {:?}", path, eps, want),
            Ok(Some(fixed)) => {
                ensure!(!want.is_empty(), "{:?} was fixed to {:?} but has no violations", path, fixed);
                ensure!(fixed[0] == path[0] && fixed.last() == path.last(), "fixing {:?} changed end points: {:?}", path, fixed);
                for w in fixed.windows(2) {
                    ensure!(g.min_arc(w[0], w[1]).is_some(), "fixing {:?} gives {:?}: no arc from {} to {}", path, fixed, w[0], w[1]);
                }
                let left = violations(&g, &d, &fixed, eps);
                ensure!(left.is_empty(), "fixing {:?} gives {:?} which still has violations {:?}", path, fixed, left);
                let len = |p: &[u32]| p.windows(2).map(|w| g.min_arc(w[0], w[1]).unwrap() as u64).sum::<u64>();
                ensure!(len(&fixed) < len(&path), "fixing {:?} does not make it shorter: {:?}", path, fixed);
            }
            Err(_) => return Err("fixing takes too long".to_string()),
        }
        if simple && path.len() > 1 {
            let mut pos = vec![0u64];
            for w in path.windows(2) {
                pos.push(pos.last().unwrap() + g.min_arc(w[0], w[1]).unwrap() as u64);
            }
            let (mut shortest, mut stretch) = (*pos.last().unwrap(), 1.0f64);
            for i in 0..path.len() {
                for j in i + 1..path.len() {
                    let sp = d[path[i] as usize][path[j] as usize];
                    let len = pos[j] - pos[i];
                    if len > sp {
                        shortest = shortest.min(len);
                        stretch = stretch.max(len as f64 / sp as f64);
                    }
                }
            }
            let want_opt = shortest as f64 / *pos.last().unwrap() as f64;
            let got_opt = tree.local_optimality(&path);
            ensure!((got_opt - want_opt).abs() < 1e-9, "local optimality of {:?} is {} but got {}", path, want_opt, got_opt);
            let (got_opt, got_ubs) = tree.suboptimal_stats(&path);
            ensure!((got_opt - want_opt).abs() < 1e-9, "local optimality of {:?} is {} but stats say {}", path, want_opt, got_opt);
            ensure!((got_ubs - stretch).abs() < 1e-9, "stretch of {:?} is {} but stats say {}", path, stretch, got_ubs);
        }
    }
    Ok(())
}

/// Only the minimal ranges survive the filter.
fn covered(c: &mut Case) -> Result<(), String> {
    let max = *c.pick(&[4usize, 8, 20]);
    let mut ranges = Vec::new();
    for _ in 0..c.size(0, 10) {
        let a = c.size(0, max);
        let b = c.size(a + 1, max + 1);
        if !ranges.contains(&(a..b)) {
            ranges.push(a..b);
        }
    }
    c.note(|| format!("{:?}", ranges));
    let want: Vec<_> = sorted(
        ranges
            .iter()
            .filter(|r| !ranges.iter().any(|o| o != *r && o.start >= r.start && o.end <= r.end))
            .cloned()
            .collect(),
    );
    if want.len() != ranges.len() {
        c.nontrivial();
    }
    let mut got = ranges.clone();
    filter_covered(&mut got);
    ensure_eq!(sorted(got), want, "minimal ranges of {:?}", ranges);
    Ok(())
}

/// Is one of the forbidden node sequences a suffix of the walk?
fn forbidden_suffix(walk: &[u32], forbidden: &[Vec<u32>]) -> bool {
    forbidden.iter().any(|f| walk.ends_with(f))
}

/// Length of the shortest walk which avoids all forbidden node sequences (states: last nodes of the walk).
fn avoiding(g: &G, forbidden: &[Vec<u32>], s: u32) -> Vec<u64> {
    let keep = forbidden.iter().map(Vec::len).max().unwrap_or(1);
    let mut best = vec![INF; g.n];
    let mut dist: BTreeMap<Vec<u32>, u64> = BTreeMap::new();
    let mut queue = std::collections::BTreeSet::new();
    // longest suffix which is a proper prefix of a forbidden sequence (or just the last node)
    let norm = |walk: &[u32]| -> Vec<u32> {
        for i in walk.len().saturating_sub(keep)..walk.len() {
            if i + 1 == walk.len() || forbidden.iter().any(|f| f.len() > walk.len() - i && f.starts_with(&walk[i..])) {
                return walk[i..].to_vec();
            }
        }
        unreachable!()
    };
    dist.insert(vec![s], 0);
    queue.insert((0u64, vec![s]));
    while let Some((k, walk)) = queue.pop_first() {
        if dist[&walk] < k {
            continue;
        }
        let v = *walk.last().unwrap();
        best[v as usize] = best[v as usize].min(k);
        for e in g.edges.iter().filter(|e| e.0 == v) {
            let mut w = walk.clone();
            w.push(e.1);
            if forbidden_suffix(&w, forbidden) {
                continue;
            }
            let w = norm(&w);
            let nk = k + e.2 as u64;
            if dist.get(&w).map_or(true, |&o| nk < o) {
                dist.insert(w.clone(), nk);
                queue.insert((nk, w));
            }
        }
    }
    best
}

fn blocked(c: &mut Case) -> Result<(), String> {
    let mut g = gr(c, 7, true);
    // documented: loops are never used
    g.edges.retain(|e| e.0 != e.1);
    c.note(|| g.desc());
    let graph = g.owned();
    let d = g.all_dists();
    let m = g.m();
    let mut ops = BlockedPathsDijkstra::new(g.n, m, DefaultOpsByEdgeId());
    let mut dd = DijkstraData::<_, (), MultiCritNodeData<_>>::new(g.n);
    let mut forbidden: Vec<Vec<u32>> = Vec::new();
    for _ in 0..c.size(1, 5) {
        if c.chance(1, 6) {
            forbidden.clear();
            ops.reset(&graph);
        }
        // queries add paths one by one
        for _ in 0..c.size(0, 4) {
            let path = random_path(c, &g, &d, 5);
            let contains = |walk: &[u32]| forbidden.iter().any(|f| walk.windows(f.len()).any(|w| w == &f[..]));
            // paths are simple or a single cycle, and no path contains a forbidden one
            let simple = (0..path.len()).all(|i| !path[..i].contains(&path[i]) || (i + 1 == path.len() && path[i] == path[0]));
            if path.len() < 2 || !simple || contains(&path) {
                continue;
            }
            c.note(|| format!("forbid {:?}", path));
            ops.add_forbidden_path(&path, &graph);
            forbidden.push(path);
        }
        ensure_eq!(ops.num_forbidden_paths(), forbidden.len(), "number of forbidden paths");
        let s = c.u32(0, g.n as u32 - 1);
        c.note(|| format!("query from {}", s));
        let want = avoiding(&g, &forbidden, s);
        if want != d[s as usize] {
            c.nontrivial();
        }
        let mut run = MultiCritDijkstraRun::query(
            &graph,
            &mut dd,
            &mut ops,
            DijkstraInit {
                source: NodeIdT(s),
                initial_state: (0, zero_paths(), (NodeIdT(s), zero_paths())),
            },
            |_| Some(0),
        );
        while run.next_step_with_potential(|_| Some(0)).is_some() {}
        for v in 0..g.n {
            let got = dd.distances[v].popped().iter().map(|l| l.0 .0 as u64).min().unwrap_or(INF);
            ensure_eq!(got, want[v], "shortest walk from {} to {} avoiding {:?}", s, v, forbidden);
        }
    }
    Ok(())
}

fn zero_paths() -> ActiveForbittenPaths {
    ActiveForbittenPaths::One(0)
}

fn number(r: &BTreeMap<&'static str, serde_json::Value>, k: &str) -> Option<f64> {
    r.get(k).and_then(|v| v.as_f64())
}

/// Thrown to end a heuristic query which does not come to an end.
struct GiveUp;

fn traffic(c: &mut Case) -> Result<(), String> {
    let g = gr(c, 8, true);
    let live = {
        let w: Vec<u32> = g
            .edges
            .iter()
            .map(|e| match c.weighted(&[4, 2, 1]) {
                0 => e.2,
                1 => e.2 * c.u32(1, 10),
                _ => c.u32(1, 20),
            })
            .collect();
        g.with_weights(&w)
    };
    c.note(|| format!("smooth {}\nlive {:?}", g.desc(), live.weights()));
    let (smooth_graph, live_graph) = (g.owned(), live.owned());
    let (d, dl) = (g.all_dists(), live.all_dists());
    let order = order(c, &g);
    let cch = CCH::fix_order_and_build(&smooth_graph, order);
    let smooth_pot = CCHPotData::new(&cch, &smooth_graph);
    let live_pot = CCHPotData::new(&cch, &live_graph);
    let mut exact = TrafficAwareServer::new(smooth_graph.borrowed(), live_graph.borrowed(), &smooth_pot, &live_pot);
    let mut heuristic = HeuristicTrafficAwareServer::new(smooth_graph.borrowed(), live_graph.borrowed(), &smooth_pot, &live_pot);
    let mut fixing = IterativePathFixing::new(smooth_graph.borrowed(), live_graph.borrowed(), &smooth_pot, &live_pot);
    let mut baseline = SmoothPathBaseline::new(smooth_graph.borrowed(), live_graph.borrowed(), &smooth_pot, &live_pot);
    for _ in 0..c.size(1, 4) {
        let (s, t) = (c.u32(0, g.n as u32 - 1), c.u32(0, g.n as u32 - 1));
        let eps = *c.pick(EPS);
        if s == t {
            continue;
        }
        let base = dl[s as usize][t as usize];
        c.note(|| format!("query {} {} eps {} (base {})", s, t, eps, base));
        let mut best = INF;
        let mut best_smooth = INF;
        simple_paths(&live, t, &mut vec![s], 0, &mut |path, len| {
            if len < best && violations(&g, &d, path, eps).is_empty() {
                best = len;
            }
            let sm: u64 = path.windows(2).map(|w| g.min_arc(w[0], w[1]).unwrap() as u64).sum();
            if sm == d[s as usize][t as usize] {
                best_smooth = best_smooth.min(len);
            }
        });
        if best != base {
            c.nontrivial();
        }
        let query = Query { from: s, to: t };
        let percent = |len: u64| (len - base) as f64 / base as f64 * 100.0;
        let (res, r) = captured(|| exact.query(query, eps));
        ensure_eq!(res.is_some(), base != INF, "traffic aware query {} {} found something", s, t);
        if base != INF {
            let got = number(&r, "length_increase_percent").unwrap();
            ensure!(
                (got - percent(best)).abs() < 1e-6,
                "traffic aware query {}->{} eps {}: best path without detours has length {} (shortest {}), expected increase {} but got {}",
                s, t, eps, best, base, percent(best), got
            );
        }
        // The heuristic may get stuck with the same path (until its time limit): given up after a while.
        let mut paths: Vec<Vec<u32>> = Vec::new();
        let (res, r) = captured(|| {
            catch_unwind(AssertUnwindSafe(|| {
                heuristic.query(query, eps, |p| {
                    paths.push(p.to_vec());
                    if paths.len() > 40 {
                        std::panic::panic_any(GiveUp);
                    }
                })
            }))
        });
        let res = match res {
            Ok(res) => Some(res),
            Err(e) if e.is::<GiveUp>() => {
                c.label("heuristic got stuck");
                None
            }
            Err(e) => std::panic::resume_unwind(e),
        };
        ensure!(base != INF || (res == Some(None) && paths.is_empty()), "heuristic query {} {} found {:?}", s, t, paths);
        if base != INF {
            ensure!(!paths.is_empty(), "heuristic query {} {} finds nothing", s, t);
            let mut prev = 0;
            for (i, p) in paths.iter().enumerate() {
                let len: u64 = p.windows(2).map(|w| live.min_arc(w[0], w[1]).unwrap_or(INFINITY) as u64).sum();
                check_node_path(&live, p, s, t, if i == 0 { base } else { len }, "heuristic query")?;
                prev = len;
                let v = violations(&g, &d, p, eps);
                if i + 1 < paths.len() {
                    ensure!(!v.is_empty(), "heuristic query {}->{} eps {}: path {:?} has no violations but was not taken", s, t, eps, p);
                } else if let Some(res) = res {
                    ensure!(v.is_empty() || res.is_none(), "heuristic query {}->{} eps {}: result {:?} path {:?} number {} has violations {:?}", s, t, eps, res, p, i, v);
                }
            }
            if res == Some(Some(())) {
                ensure!(prev >= best, "heuristic path is shorter than the best one");
                let got = number(&r, "length_increase_percent").unwrap();
                ensure!((got - percent(prev)).abs() < 1e-6, "heuristic reports {} for {}", got, prev);
            }
        }
        let (res, r) = captured(|| fixing.query(query, eps));
        ensure_eq!(res.is_some(), base != INF, "path fixing query {} {} found something", s, t);
        if base != INF {
            let got = number(&r, "length_increase_percent").unwrap();
            ensure!(got >= percent(best) - 1e-6, "path fixing reports a path which is too good: {} instead of {}", got, percent(best));
        }
        let (res, r) = captured(|| baseline.query(query));
        ensure_eq!(res.is_some(), base != INF, "baseline query {} {} found something", s, t);
        if base != INF {
            let got = number(&r, "length_increase_percent").unwrap();
            ensure!(got >= percent(best_smooth) - 1e-6, "baseline reports a path which is too good: {} instead of {}", got, percent(best_smooth));
        }
    }
    Ok(())
}

/// The network driven at some time: earliest arrival behind each hop.
struct Drive<'a> {
    tdg: &'a TdG,
    eval: &'a dyn Fn(usize, u64) -> u64,
}

impl Drive<'_> {
    fn hop(&self, u: u32, v: u32, at: u64) -> Option<u64> {
        let on = self.tdg.edges.iter().enumerate().filter(|(_, e)| e.0 == u && e.1 == v);
        on.map(|(i, _)| at + (self.eval)(i, at)).min()
    }

    fn arrival(&self, path: &[u32], dep: u64) -> Option<u64> {
        path.windows(2).try_fold(dep, |at, w| self.hop(w[0], w[1], at))
    }

    fn simple_paths(&self, t: u32, path: &mut Vec<u32>, at: u64, f: &mut impl FnMut(&[u32], u64)) {
        let v = *path.last().unwrap();
        if v == t {
            f(path, at);
            return;
        }
        let mut next: Vec<u32> = self.tdg.edges.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
        next.sort_unstable();
        next.dedup();
        for u in next {
            if !path.contains(&u) {
                path.push(u);
                self.simple_paths(t, path, self.hop(v, u, at).unwrap(), f);
                path.pop();
            }
        }
    }
}

macro_rules! td_servers {
    ($c:expr, $m:ident, $graph:expr, $g:expr, $d:expr, $tdg:expr, $lower:expr, $eval:expr, $now:expr, $live:expr) => {{
        let (c, graph, g, d, tdg): (&mut Case, _, &G, &[Vec<u64>], &TdG) = ($c, $graph, $g, $d, $tdg);
        let smooth_graph = g.owned();
        let lower: G = $lower;
        let ord = order(c, g);
        let cch = CCH::fix_order_and_build(&smooth_graph, ord);
        let smooth_pot = CCHPotData::new(&cch, &smooth_graph);
        let live_pot = CCHPotData::new(&cch, &lower.owned());
        let multi = if c.coin() {
            c.note(|| "multi metric".to_string());
            let times = time_ranges(c);
            c.note(|| format!("{:?}", times));
            Some(times)
        } else {
            None
        };
        let pot = || match &multi {
            Some(times) => {
                let mut mmp = MultiMetricPreprocessed::new(&cch, times.clone(), &tdg.td(), None);
                let customize_live: &dyn Fn(&mut MultiMetricPreprocessed) = $live;
                customize_live(&mut mmp);
                TdPot(Box::new(MultiMetric::new(mmp)))
            }
            None => TdPot(Box::new(live_pot.forward_potential())),
        };
        let mut exact = $m::TDTrafficAwareServer::new(smooth_graph.borrowed(), graph, &smooth_pot, pot());
        let mut heuristic = $m::HeuristicTDTrafficAwareServer::new(smooth_graph.borrowed(), graph, &smooth_pot, pot());
        let mut fixing = $m::IterativePathFixing::new(smooth_graph.borrowed(), graph, &smooth_pot, pot());
        let mut baseline = $m::SmoothPathBaseline::new(smooth_graph.borrowed(), graph, &smooth_pot, pot());
        let drive = Drive { tdg, eval: $eval };
        for _ in 0..c.size(1, 4) {
            let (s, t) = (c.u32(0, g.n as u32 - 1), c.u32(0, g.n as u32 - 1));
            let eps = *c.pick(EPS);
            let raws: Vec<&Raw> = tdg.edges.iter().map(|e| &e.2).collect();
            let mut departure = instant(c, &raws);
            if departure < $now {
                departure = ($now + departure % 10_000_000).min(P - 1);
            }
            let dep = departure as u64;
            if s == t {
                continue;
            }
            let (mut base, mut best, mut best_smooth) = (INF, INF, INF);
            drive.simple_paths(t, &mut vec![s], dep, &mut |path, at| {
                let len = at - dep;
                base = base.min(len);
                if len < best && violations(g, d, path, eps).is_empty() {
                    best = len;
                }
                let sm: u64 = path.windows(2).map(|w| g.min_arc(w[0], w[1]).unwrap() as u64).sum();
                if sm == d[s as usize][t as usize] {
                    best_smooth = best_smooth.min(len);
                }
            });
            c.note(|| format!("query {} {} at {} eps {} (base {} best {})", s, t, dep, eps, base, best));
            if best != base {
                c.nontrivial();
            }
            let query = TDQuery { from: s, to: t, departure };
            let percent = |len: u64| (len - base) as f64 / base as f64 * 100.0;
            let (res, r) = captured(|| exact.query(query, eps));
            let got = number(&r, "length_increase_percent").filter(|_| res.is_some());
            if multi.is_some() && best != base && got.map_or(true, |x| x > percent(best)) {
                // this potential is only made for arrivals until the one of the shortest path
                c.finding("pruned-potential", format!("traffic aware query {}->{} at {} eps {} with a multi metric potential: got {:?} instead of {}", s, t, dep, eps, got, percent(best)))?;
            } else {
                ensure_eq!(res.is_some(), base != INF, "traffic aware query {} {} found something", s, t);
                if let Some(got) = got {
                    ensure!(
                        (got - percent(best)).abs() < 1e-6,
                        "traffic aware query {}->{} at {} eps {}: best path without detours takes {} (fastest {}), expected increase {} but got {}",
                        s, t, dep, eps, best, base, percent(best), got
                    );
                }
            }
            // The heuristic may get stuck with the same path (until its time limit): given up after a while.
            let mut paths: Vec<Vec<u32>> = Vec::new();
            let (res, r) = captured(|| {
                catch_unwind(AssertUnwindSafe(|| {
                    heuristic.query(query, eps, |p| {
                        paths.push(p.to_vec());
                        if paths.len() > 40 {
                            std::panic::panic_any(GiveUp);
                        }
                    })
                }))
            });
            let res = match res {
                Ok(res) => Some(res),
                Err(e) if e.is::<GiveUp>() => {
                    c.label("heuristic got stuck");
                    None
                }
                Err(e) => std::panic::resume_unwind(e),
            };
            ensure!(base != INF || (res == Some(None) && paths.is_empty()), "heuristic query {} {} found {:?}", s, t, paths);
            if base != INF {
                ensure!(!paths.is_empty(), "heuristic query {} {} finds nothing", s, t);
                let mut prev = 0;
                for (i, p) in paths.iter().enumerate() {
                    ensure!(p[0] == s && *p.last().unwrap() == t, "heuristic path {:?} for {}->{}", p, s, t);
                    let at = drive.arrival(p, dep);
                    let len = at.ok_or_else(|| format!("heuristic path {:?} uses a missing arc", p))? - dep;
                    ensure!(i > 0 || len == base, "first heuristic path {:?} takes {} instead of {}", p, len, base);
                    prev = len;
                    let v = violations(g, d, p, eps);
                    if i + 1 < paths.len() {
                        ensure!(!v.is_empty(), "heuristic query {}->{} eps {}: path {:?} has no violations but was not taken", s, t, eps, p);
                    } else if let Some(res) = res {
                        ensure!(v.is_empty() || res.is_none(), "heuristic query {}->{} eps {}: result {:?} path {:?} number {} has violations {:?}", s, t, eps, res, p, i, v);
                    }
                }
                if res == Some(Some(())) {
                    ensure!(prev >= best, "heuristic path is faster than the best one");
                    let got = number(&r, "length_increase_percent").unwrap();
                    ensure!((got - percent(prev)).abs() < 1e-6, "heuristic reports {} for {}", got, prev);
                }
            }
            let (res, r) = captured(|| fixing.query(query, eps));
            ensure_eq!(res.is_some(), base != INF, "path fixing query {} {} found something", s, t);
            if base != INF {
                let got = number(&r, "length_increase_percent").unwrap();
                ensure!(got >= percent(best) - 1e-6, "path fixing reports a path which is too good: {} instead of {}", got, percent(best));
            }
            let (res, r) = captured(|| baseline.query(query));
            ensure_eq!(res.is_some(), base != INF, "baseline query {} {} found something", s, t);
            if base != INF {
                let got = number(&r, "length_increase_percent").unwrap();
                ensure!(got >= percent(best_smooth) - 1e-6, "baseline reports a path which is too good: {} instead of {}", got, percent(best_smooth));
            }
        }
        Ok(())
    }};
}

fn td_smooth(c: &mut Case) -> (G, TdG) {
    let mut g = gr(c, 7, true);
    let hi = *c.pick(&[20u32, 2_000, 3_600_000]);
    let mut tdg = td_from(c, &g, 4, hi, 1);
    // same order of arcs in both
    let mut arcs: Vec<_> = tdg.edges.drain(..).collect();
    arcs.sort_by_key(|e| e.0);
    for (e, a) in g.edges.iter_mut().zip(&arcs) {
        assert!((e.0, e.1) == (a.0, a.1));
        e.2 = match c.weighted(&[3, 2, 1]) {
            0 => a.2.iter().map(|p| p.1).min().unwrap(),
            1 => a.2.iter().map(|p| p.1 as u64).sum::<u64>() as u32 / a.2.len() as u32,
            _ => c.u32(1, hi),
        };
    }
    tdg.edges = arcs;
    (g, tdg)
}

/// The time dependent servers.
fn td_traffic(c: &mut Case) -> Result<(), String> {
    let (g, tdg) = td_smooth(c);
    c.note(|| format!("smooth {}\nlive {}", g.desc(), tdg.desc()));
    let d = g.all_dists();
    let graph = tdg.td();
    let lower = tdg.lower();
    let eval = |e: usize, t: u64| eval(&tdg.edges[e].2, t);
    td_servers!(c, td_plain, &graph, &g, &d, &tdg, lower, &eval, 0, &|_| ())
}

/// The time dependent servers with live reports.
fn live_traffic(c: &mut Case) -> Result<(), String> {
    let (g, tdg) = td_smooth(c);
    let now = live_time(c).min(P - 1 - 18_000_000);
    let reports = reports(c, &tdg, now);
    c.note(|| format!("smooth {}\nlive {} from {}: {:?}", g.desc(), tdg.desc(), now, reports));
    let d = g.all_dists();
    let graph = pess_graph(&tdg, &reports);
    let lower = tdg.lower();
    let eval = |e: usize, t: u64| pess_eval(&tdg.edges[e].2, reports[e], t);
    td_servers!(c, td_live, &graph, &g, &d, &tdg, lower, &eval, now, &|m| m.customize_live(&graph, now))
}

fn simple_paths(g: &G, t: u32, path: &mut Vec<u32>, len: u64, f: &mut impl FnMut(&[u32], u64)) {
    let v = *path.last().unwrap();
    if v == t {
        f(path, len);
        return;
    }
    let mut next: Vec<u32> = g.edges.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
    next.sort_unstable();
    next.dedup();
    for u in next {
        if !path.contains(&u) {
            path.push(u);
            simple_paths(g, t, path, len + g.min_arc(v, u).unwrap() as u64, f);
            path.pop();
        }
    }
}

fn weakly_connected(g: &G) -> bool {
    let mut comp: Vec<usize> = (0..g.n).collect();
    for _ in 0..g.n {
        for e in &g.edges {
            let c = comp[e.0 as usize].min(comp[e.1 as usize]);
            comp[e.0 as usize] = c;
            comp[e.1 as usize] = c;
        }
    }
    comp.iter().all(|&c| c == 0)
}

fn penalty(c: &mut Case) -> Result<(), String> {
    let g = gr(c, if c.big { 80 } else { 12 }, false);
    c.note(|| g.desc());
    let graph = g.owned();
    let d = g.all_dists();
    let connected = weakly_connected(&g);
    let order = order(c, &g);
    let cch = CCH::fix_order_and_build(&graph, order);
    let data = CCHPotData::new(&cch, &graph);
    let mut plain = Penalty::new(&graph, data.forward_potential(), data.backward_potential());
    let mut single = PenaltyIterative::new(&graph, &data);
    for _ in 0..c.size(1, 6) {
        let (s, t) = (c.u32(0, g.n as u32 - 1), c.u32(0, g.n as u32 - 1));
        let base = d[s as usize][t as usize];
        let kind = c.draw(2);
        c.note(|| format!("query {} {} (base {}) kind {}", s, t, base, kind));
        let query = Query { from: s, to: t };
        let (res, r) = captured(|| match kind {
            0 => plain.alternatives(query).map(|_| Vec::new()),
            1 => plain.alternatives_iterative(query),
            _ => single.alternatives(query).map(|p| vec![p]),
        });
        // the route starts/ends where the end points are attached to the rest of the graph
        let reported = number(&r, "base_dist");
        if let Some(b) = reported {
            ensure!(b as u64 <= base, "base distance from {} to {} is {} instead of {}", s, t, b, base);
        }
        let alts = match res {
            None => {
                // only routes in the biggest component are considered
                ensure!(kind == 2 || base == INF || !connected, "no result for {} {}", s, t);
                continue;
            }
            Some(a) => a,
        };
        let b = reported.unwrap() as u64;
        ensure!(alts.len() <= 5, "too many alternatives: {:?}", alts);
        for p in &alts {
            let (x, y) = (p[0], *p.last().unwrap());
            c.nontrivial();
            let mut len = 0;
            for w in p.windows(2) {
                match g.min_arc(w[0], w[1]) {
                    Some(w) => len += w as u64,
                    None => return Err(format!("alternative {:?} from {} to {} uses a missing arc from {} to {}", p, s, t, w[0], w[1])),
                }
            }
            ensure_eq!(d[x as usize][y as usize], b, "base distance of alternative {:?}", p);
            ensure!(len >= b && (kind == 1 || len <= (b as f64 * 1.25) as u64), "alternative {:?} from {} to {} has length {} but the shortest path {}", p, s, t, len, b);
        }
        for (i, p) in alts.iter().enumerate() {
            ensure!(!alts[..i].contains(p), "alternative {:?} reported twice", p);
        }
    }
    Ok(())
}
