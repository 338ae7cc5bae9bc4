//! Queries and profiles on time-dependent networks with real-valued travel times.

use crate::c14::*;
use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::catchup;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::floating_td_dijkstra::Server as FlDijkstra;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;

pub static PROP: Property = Property {
    id: "C15",
    rule: "a query between different nodes was answered, its travel time depends on the departure time (functions on the way vary) and the path has at least two arcs",
    subs: &[
        Sub { name: "dijkstra", f: dijkstra, quick: 60_000, thorough: 3_000_000, big: false },
        Sub { name: "catchup", f: catchup_small, quick: 40_000, thorough: 1_500_000, big: false },
        Sub { name: "catchup_big", f: catchup_small, quick: 15_000, thorough: 400_000, big: true },
    ],
};

pub static PROP16: Property = Property {
    id: "C16",
    rule: "the profile of a pair of different, connected nodes was computed and is not constant",
    subs: &[
        Sub { name: "profiles", f: profiles, quick: 24_000, thorough: 600_000, big: false },
        Sub { name: "profiles_big", f: profiles, quick: 12_000, thorough: 200_000, big: true },
        Sub { name: "naive", f: naive, quick: 24_000, thorough: 600_000, big: false },
        Sub { name: "naive_big", f: naive, quick: 10_000, thorough: 200_000, big: true },
    ],
};

pub const TOL: f64 = 1e-2;

pub struct Net {
    pub tdg: TdG,
    fs: Vec<F>,
}

pub fn net(c: &mut Case) -> Net {
    net_with(c, &[1000, 60_000, 0])
}

/// For profiles: no waiting (slopes stay above -0.9) and every arc takes some time.
fn strict_net(c: &mut Case) -> Net {
    let mut net = net_with(c, &[1000, 60_000]);
    for e in &mut net.tdg.edges {
        let k = e.2.len();
        for i in 0..2 * k {
            let (prev, cur) = (e.2[i % k], e.2[(i + 1) % k]);
            let dt = if i % k + 1 == k { P - prev.0 } else { cur.0 - prev.0 };
            let least = prev.1.saturating_sub((dt as u64 * 9 / 10) as u32);
            if k > 1 && cur.1 < least {
                e.2[(i + 1) % k].1 = least;
            }
        }
    }
    net.fs = net.tdg.edges.iter().map(|e| tt(&e.2)).collect();
    net
}

fn net_with(c: &mut Case, min_tts: &[u32]) -> Net {
    let cfg = Cfg { min_n: 2, max_n: if c.big { 40 } else { 8 }, parallel: false, loops: true, ..CFG };
    let g = graph(c, &cfg);
    let (max_tt, min_tt) = (*c.pick(&[7_200_000u32, 1_000_000, 100_000]), *c.pick(min_tts));
    let points = *c.pick(&[4usize, 8, 2]);
    let tdg = td_fl(c, &g, points, max_tt, min_tt);
    c.note(|| tdg.desc());
    let fs = tdg.edges.iter().map(|e| tt(&e.2)).collect();
    Net { tdg, fs }
}

impl Net {
    fn graph(&self) -> TDGraph {
        let (f, d, t) = self.tdg.ipps();
        TDGraph::new(self.tdg.first_out(), self.tdg.head(), f, d, t)
    }

    /// Earliest arrivals.
    pub fn arrivals(&self, s: u32, dep: f64) -> Vec<f64> {
        let n = self.tdg.n;
        let mut dist = vec![f64::INFINITY; n];
        let mut done = vec![false; n];
        dist[s as usize] = dep;
        loop {
            let v = match (0..n).filter(|&v| !done[v] && dist[v].is_finite()).min_by(|&a, &b| dist[a].partial_cmp(&dist[b]).unwrap()) {
                Some(v) => v,
                None => return dist,
            };
            done[v] = true;
            for (e, f) in self.tdg.edges.iter().zip(&self.fs) {
                if e.0 as usize == v {
                    let a = dist[v] + at(f, dist[v]);
                    if a < dist[e.1 as usize] {
                        dist[e.1 as usize] = a;
                    }
                }
            }
        }
    }

    fn check_path(&self, path: &[(u32, Timestamp)], s: u32, t: u32, dep: f64, arr: f64) -> Result<bool, String> {
        ensure!(!path.is_empty(), "no path");
        ensure!(path[0].0 == s && close(f64::from(path[0].1), dep, 1e-6), "path starts with {:?}", path[0]);
        let last = path[path.len() - 1];
        ensure!(last.0 == t && close(f64::from(last.1), arr, TOL), "path ends with {:?} but arrives at {}", last, arr);
        let mut varied = false;
        for w in path.windows(2) {
            let (x, y) = (f64::from(w[0].1), f64::from(w[1].1));
            let want = (0..self.fs.len())
                .filter(|&e| (self.tdg.edges[e].0, self.tdg.edges[e].1) == (w[0].0, w[1].0))
                .map(|e| {
                    varied |= self.fs[e].iter().any(|p| p.1 != self.fs[e][0].1);
                    at(&self.fs[e], x)
                })
                .fold(f64::INFINITY, f64::min);
            ensure!(want.is_finite(), "there is no arc between {} and {} in {:?}", w[0].0, w[1].0, path);
            ensure!(y >= x - 1e-6, "path {:?} goes back in time", path);
            ensure!(close(y - x, want, TOL), "arc from {} to {} takes {} but {} in path {:?}", w[0].0, w[1].0, want, y - x, path);
        }
        Ok(varied && path.len() > 2)
    }

    fn departure(&self, c: &mut Case) -> f64 {
        let t = match c.draw(3) {
            0 => c.u32(0, 86_399) as f64,
            1 => c.u32(0, P - 1) as f64 / 1000.0,
            _ if !self.fs.is_empty() => {
                let i = c.size(0, self.fs.len() - 1);
                let f = &self.fs[i];
                (c.pick(f).0 + *c.pick(&[0.0, 0.5, -0.001])).max(0.0)
            }
            _ => 0.0,
        };
        t + if c.chance(1, 8) { DAY } else { 0.0 }
    }

    fn pair(&self, c: &mut Case) -> (u32, u32) {
        let n = self.tdg.n as u32;
        (c.u32(0, n - 1), c.u32(0, n - 1))
    }

    fn cch(&self, c: &mut Case, graph: &TDGraph) -> CCH {
        let g = self.tdg.with(|_, _| 1);
        let order = order(c, &g);
        CCH::fix_order_and_build(graph, order)
    }
}

macro_rules! query {
    ($c:ident, $net:ident, $server:ident) => {{
        let (s, t) = $net.pair($c);
        let dep = $net.departure($c);
        let want = $net.arrivals(s, dep)[t as usize];
        let mut res = $server.td_query(TDQuery { from: s, to: t, departure: ts(dep) });
        let got = res.distance().map(f64::from);
        $c.note(|| format!("from {} to {} at {}: {:?}", s, t, dep, got));
        match got {
            None => ensure!(want.is_infinite(), "from {} to {} at {} nothing is found but it takes {}", s, t, dep, want - dep),
            Some(d) => {
                ensure!(want.is_finite(), "from {} to {} at {} takes {} but there is no path", s, t, dep, d);
                ensure!(close(d, want - dep, TOL), "from {} to {} at {} takes {} but got {}", s, t, dep, want - dep, d);
                let path = res.node_path().unwrap();
                if $net.check_path(&path, s, t, dep, want)? {
                    $c.nontrivial();
                }
            }
        }
    }};
}

fn dijkstra(c: &mut Case) -> Result<(), String> {
    let net = net(c);
    let mut server = FlDijkstra::new(net.graph());
    for _ in 0..c.size(1, 4) {
        query!(c, net, server);
    }
    Ok(())
}

fn catchup_small(c: &mut Case) -> Result<(), String> {
    let net = net(c);
    let graph = net.graph();
    let cch = net.cch(c, &graph);
    let customized = catchup::customize(&cch, &graph);
    let mut server = catchup::Server::new(&cch, &customized);
    for _ in 0..c.size(2, 8) {
        query!(c, net, server);
    }
    Ok(())
}

/// Compare a profile at, between and around its points and at random times.
fn check_profile(c: &mut Case, net: &Net, s: u32, t: u32, f: &[(f64, f64)], lo: f64, hi: f64) -> Result<(), String> {
    if f.iter().any(|p| !close(p.1, f[0].1, 1e-3)) {
        c.nontrivial();
    }
    let mut times: Vec<f64> = f.iter().map(|p| p.0).filter(|&t| t > lo && t < hi).collect();
    times.push(lo);
    times.push(hi);
    times.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mids: Vec<f64> = times.windows(2).map(|w| (w[0] + w[1]) / 2.0).collect();
    times.extend(mids);
    if times.len() > 30 {
        let k = times.len();
        for i in 0..30 {
            let j = c.size(i, k - 1);
            times.swap(i, j);
        }
        times.truncate(30);
    }
    for e in &net.fs {
        if times.len() < 45 {
            times.push(c.pick(e).0);
        }
    }
    for _ in 0..3 {
        times.push(lo + (hi - lo) * (c.u32(0, 1_000_000) as f64 / 1e6));
    }
    for dep in times {
        if dep < lo || dep > hi {
            continue;
        }
        let want = net.arrivals(s, dep)[t as usize] - dep;
        ensure!(close(line(f, dep), want, TOL), "from {} to {} at {} takes {} but the profile says {}: {:?}", s, t, dep, want, line(f, dep), f);
    }
    Ok(())
}

fn check_paths(c: &mut Case, net: &Net, s: u32, t: u32, paths: &[(Timestamp, Vec<u32>)], lo: f64, hi: f64) -> Result<(), String> {
    ensure!(!paths.is_empty() && f64::from(paths[0].0) <= lo + 1e-5, "no path for the beginning: {:?}", paths);
    for (i, (from, path)) in paths.iter().enumerate() {
        let from = f64::from(*from).max(lo);
        let until = paths.get(i + 1).map(|p| f64::from(p.0)).unwrap_or(hi);
        ensure!(until >= from - 1e-5 && until <= hi + 1e-5, "paths are not sorted by time: {:?}", paths);
        let mut v = s;
        for &e in path {
            let e = &net.tdg.edges[e as usize];
            ensure!(e.0 == v, "path {:?} is not connected", path);
            v = e.1;
        }
        ensure!(v == t, "path {:?} does not end at the target", path);
        for k in 0..3 {
            let dep = match k {
                0 => from,
                1 => until,
                _ => from + (until - from) * (c.u32(0, 1000) as f64 / 1000.0),
            };
            if dep > hi {
                continue;
            }
            let mut x = dep;
            for &e in path {
                x += at(&net.fs[e as usize], x);
            }
            let want = net.arrivals(s, dep)[t as usize];
            ensure!(close(x, want, TOL), "path {:?} valid from {} to {}: departing at {} arrives at {} instead of {}", path, from, until, dep, x, want);
        }
    }
    if paths.len() > 1 {
        c.label("several paths");
    }
    Ok(())
}

fn profiles(c: &mut Case) -> Result<(), String> {
    let net = strict_net(c);
    let graph = net.graph();
    let cch = net.cch(c, &graph);
    let customized = catchup::customize(&cch, &graph);
    let mut server = catchup::profiles::Server::new(&cch, &customized);
    for _ in 0..c.size(1, 5) {
        let (s, t) = net.pair(c);
        if s == t {
            continue;
        }
        let reachable = net.arrivals(s, 0.0)[t as usize].is_finite();
        let (_, f, paths) = server.distance(s, t);
        let f = pairs(&f);
        c.note(|| format!("from {} to {}: {:?} {:?}", s, t, f, paths));
        if !reachable {
            ensure!(f.is_empty() && paths.is_empty(), "there is no path from {} to {} but got {:?} {:?}", s, t, f, paths);
            continue;
        }
        valid(&f, "profile")?;
        check_profile(c, &net, s, t, &f, 0.0, DAY)?;
        check_paths(c, &net, s, t, &paths, 0.0, DAY)?;
    }
    Ok(())
}

fn naive(c: &mut Case) -> Result<(), String> {
    let net = strict_net(c);
    let graph = net.graph();
    let cch = net.cch(c, &graph);
    let customized = catchup::customize(&cch, &graph);
    let mut server = catchup::profiles_naive::Server::new(&cch, &customized);
    for _ in 0..c.size(1, 5) {
        let (s, t) = net.pair(c);
        let reachable = net.arrivals(s, 0.0)[t as usize].is_finite();
        let f = server.distance(s, t).map(|f| pairs(&f));
        c.note(|| format!("from {} to {}: {:?}", s, t, f));
        match f {
            None => ensure!(!reachable, "there is a path from {} to {} but got no profile", s, t),
            Some(f) => {
                ensure!(reachable, "there is no path from {} to {} but got {:?}", s, t, f);
                valid(&f, "profile")?;
                check_profile(c, &net, s, t, &f, 0.0, DAY)?;
            }
        }
    }
    Ok(())
}
