//! Generators for graphs and the slow, obviously correct reference algorithms.

use crate::pbt::Case;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

pub const INF: u64 = u64::MAX;

/// Plain edge list, sorted by tail (the order of edges of the same tail is as generated).
#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub edges: Vec<(u32, u32, u32)>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub min_n: usize,
    pub max_n: usize,
    pub parallel: bool,
    pub loops: bool,
    pub zero: bool,
    /// arcs with weight INFINITY (closed)
    pub inf: bool,
    pub strongly_connected: bool,
    pub max_weight: u32,
}

pub const CFG: Cfg = Cfg {
    min_n: 1,
    max_n: 14,
    parallel: true,
    loops: true,
    zero: true,
    inf: false,
    strongly_connected: false,
    max_weight: 1_000_000,
};

#[derive(Clone, Copy, Debug)]
pub enum Weights {
    Tiny,
    Small,
    Wide,
    Huge,
    Const,
}

pub fn weight_kind(c: &mut Case) -> Weights {
    match c.weighted(&[4, 4, 2, 1, 1]) {
        0 => Weights::Tiny,
        1 => Weights::Small,
        2 => Weights::Wide,
        3 => Weights::Huge,
        _ => Weights::Const,
    }
}

pub fn weight(c: &mut Case, kind: Weights, cfg: &Cfg, n: usize) -> u32 {
    let lo = if cfg.zero { 0 } else { 1 };
    // sums along simple paths stay below INFINITY
    let huge = (INFINITY as u64 / (2 * n as u64 + 4)) as u32;
    let hi = match kind {
        Weights::Tiny => 3,
        Weights::Small => 20,
        Weights::Wide => cfg.max_weight.min(huge),
        Weights::Huge => huge,
        Weights::Const => {
            return 1;
        }
    };
    c.u32(lo, hi.max(lo))
}

pub fn graph(c: &mut Case, cfg: &Cfg) -> G {
    let n = if cfg.max_n > 40 {
        // mixture of sizes
        match c.weighted(&[5, 3, 2]) {
            0 => c.size(cfg.min_n, cfg.max_n.min(14).max(cfg.min_n)),
            1 => c.size(cfg.min_n, cfg.max_n.min(60).max(cfg.min_n)),
            _ => c.size(cfg.min_n, cfg.max_n),
        }
    } else {
        c.size(cfg.min_n, cfg.max_n)
    };
    graph_n(c, cfg, n)
}

pub fn graph_n(c: &mut Case, cfg: &Cfg, n: usize) -> G {
    let wk = weight_kind(c);
    let mut und: Vec<(u32, u32)> = Vec::new();
    if n > 1 {
        match c.weighted(&[4, 2, 2, 2, 1, 1]) {
            0 => {
                // random sparse
                let m = c.size(0, 2 * n);
                for _ in 0..m {
                    und.push((c.u32(0, n as u32 - 1), c.u32(0, n as u32 - 1)));
                }
            }
            1 => {
                // tree with a few extra edges: degree 1, 2 and 3 nodes, bridges, articulation points
                for v in 1..n as u32 {
                    let p = if c.coin() { v - 1 } else { c.u32(0, v - 1) };
                    und.push((p, v));
                }
                let extra = c.size(0, n / 3 + 1);
                for _ in 0..extra {
                    und.push((c.u32(0, n as u32 - 1), c.u32(0, n as u32 - 1)));
                }
            }
            2 => {
                // grid
                let w = c.size(1, ((n as f64).sqrt() as usize).max(1) + 2).max(1);
                for v in 0..n {
                    if (v + 1) % w != 0 && v + 1 < n {
                        und.push((v as u32, v as u32 + 1));
                    }
                    if v + w < n {
                        und.push((v as u32, (v + w) as u32));
                    }
                }
            }
            3 => {
                // cycles glued together at single nodes (cacti)
                let mut v = 1u32;
                while v < n as u32 {
                    let at = c.u32(0, v - 1);
                    let len = c.u32(1, 5).min(n as u32 - v);
                    let mut prev = at;
                    for i in 0..len {
                        und.push((prev, v + i));
                        prev = v + i;
                    }
                    if len > 1 || c.coin() {
                        und.push((prev, at));
                    }
                    v += len;
                }
            }
            4 => {
                // dense, small
                let k = n.min(9) as u32;
                for a in 0..k {
                    for b in 0..a {
                        if c.coin() {
                            und.push((a, b));
                        }
                    }
                }
                for v in k..n as u32 {
                    und.push((v, c.u32(0, v - 1)));
                }
            }
            _ => {
                // several components
                let parts = c.size(1, 4);
                let m = c.size(0, 2 * n);
                for _ in 0..m {
                    let a = c.u32(0, n as u32 - 1);
                    let b = c.u32(0, n as u32 - 1);
                    if a as usize % parts == b as usize % parts {
                        und.push((a, b));
                    }
                }
            }
        }
    }
    let oneway = *c.pick(&[0u64, 0, 1, 3, 6]);
    let asym = c.coin();
    let inf_p = if cfg.inf { *c.pick(&[0u64, 0, 1, 4]) } else { 0 };
    let mut edges = Vec::new();
    for (a, b) in und {
        if a == b && !cfg.loops {
            continue;
        }
        let dir = if cfg.strongly_connected || oneway == 0 {
            0
        } else if c.chance(oneway, 8) {
            1 + c.draw(1)
        } else {
            0
        };
        let mut w = weight(c, wk, cfg, n);
        if inf_p > 0 && c.chance(inf_p, 16) {
            w = INFINITY;
        }
        if dir != 2 {
            edges.push((a, b, w));
        }
        if dir != 1 && a != b {
            if asym {
                w = weight(c, wk, cfg, n);
                if inf_p > 0 && c.chance(inf_p, 16) {
                    w = INFINITY;
                }
            }
            edges.push((b, a, w));
        }
    }
    if cfg.parallel && !edges.is_empty() && c.chance(1, 3) {
        let k = c.size(1, 4);
        for _ in 0..k {
            let (a, b, _) = *c.pick(&edges);
            let w = weight(c, wk, cfg, n);
            edges.push((a, b, w));
        }
    }
    if cfg.strongly_connected && n > 1 {
        let lo = weight(c, wk, cfg, n);
        for v in 0..n as u32 {
            let u = (v + 1) % n as u32;
            if cfg.parallel || !edges.iter().any(|&(a, b, _)| (a, b) == (v, u)) {
                edges.push((v, u, lo));
            }
        }
    }
    if !cfg.parallel {
        let mut seen = std::collections::HashSet::new();
        edges.retain(|&(a, b, _)| seen.insert((a, b)));
    }
    edges.sort_by_key(|e| e.0);
    G { n, edges }
}

impl G {
    pub fn m(&self) -> usize {
        self.edges.len()
    }
    pub fn first_out(&self) -> Vec<EdgeId> {
        let mut f = vec![0; self.n + 1];
        for e in &self.edges {
            f[e.0 as usize + 1] += 1;
        }
        for i in 0..self.n {
            f[i + 1] += f[i];
        }
        f
    }
    pub fn head(&self) -> Vec<NodeId> {
        self.edges.iter().map(|e| e.1).collect()
    }
    pub fn weights(&self) -> Vec<Weight> {
        self.edges.iter().map(|e| e.2).collect()
    }
    pub fn owned(&self) -> OwnedGraph {
        OwnedGraph::new(self.first_out(), self.head(), self.weights())
    }
    pub fn with_weights(&self, w: &[Weight]) -> G {
        let mut g = self.clone();
        for (e, &w) in g.edges.iter_mut().zip(w) {
            e.2 = w;
        }
        g
    }
    pub fn reversed(&self) -> G {
        let mut edges: Vec<_> = self.edges.iter().map(|&(a, b, w)| (b, a, w)).collect();
        edges.sort_by_key(|e| e.0);
        G { n: self.n, edges }
    }
    /// Reference shortest distances from s (naive label correcting on the edge list, INFINITY arcs are closed).
    pub fn dists(&self, s: u32) -> Vec<u64> {
        // O(n^2 + m) textbook algorithm without a heap
        let fo = self.first_out();
        let mut d = vec![INF; self.n];
        let mut done = vec![false; self.n];
        d[s as usize] = 0;
        loop {
            let mut best = INF;
            let mut u = usize::MAX;
            for v in 0..self.n {
                if !done[v] && d[v] < best {
                    best = d[v];
                    u = v;
                }
            }
            if u == usize::MAX {
                return d;
            }
            done[u] = true;
            for e in fo[u] as usize..fo[u + 1] as usize {
                let (_, b, w) = self.edges[e];
                if w < INFINITY && best + (w as u64) < d[b as usize] {
                    d[b as usize] = best + w as u64;
                }
            }
        }
    }
    pub fn all_dists(&self) -> Vec<Vec<u64>> {
        (0..self.n as u32).map(|s| self.dists(s)).collect()
    }
    /// Minimum weight of an arc a -> b.
    pub fn min_arc(&self, a: u32, b: u32) -> Option<u32> {
        self.edges.iter().filter(|e| e.0 == a && e.1 == b).map(|e| e.2).min()
    }
    pub fn desc(&self) -> String {
        format!("n={} edges={:?}", self.n, self.edges)
    }
}

pub fn w(d: u64) -> Option<Weight> {
    if d == INF {
        None
    } else {
        Some(d as Weight)
    }
}

/// A node path must start and end at the right nodes, use existing arcs, and be as long as promised
/// (taking the cheapest parallel arc).
pub fn check_node_path(g: &G, path: &[NodeId], s: u32, t: u32, dist: u64, what: &str) -> Result<(), String> {
    ensure!(!path.is_empty(), "{} {}->{}: empty path", what, s, t);
    ensure_eq!(path[0], s, "{} {}->{}: path {:?} starts wrong", what, s, t, path);
    ensure_eq!(*path.last().unwrap(), t, "{} {}->{}: path {:?} ends wrong", what, s, t, path);
    let mut sum = 0u64;
    for win in path.windows(2) {
        match g.min_arc(win[0], win[1]) {
            Some(w) if w < INFINITY => sum += w as u64,
            _ => return Err(format!("{} {}->{}: path {:?} uses non-existing arc {}->{}", what, s, t, path, win[0], win[1])),
        }
    }
    ensure_eq!(sum, dist, "{} {}->{}: path {:?} has wrong length", what, s, t, path);
    Ok(())
}

pub fn check_edge_path(g: &G, path: &[EdgeId], s: u32, t: u32, dist: u64, what: &str) -> Result<(), String> {
    let mut at = s;
    let mut sum = 0u64;
    for &e in path {
        ensure!((e as usize) < g.m(), "{} {}->{}: edge path {:?} has invalid edge {}", what, s, t, path, e);
        let (a, b, w) = g.edges[e as usize];
        ensure_eq!(a, at, "{} {}->{}: edge path {:?} not connected", what, s, t, path);
        ensure!(w < INFINITY, "{} {}->{}: edge path {:?} uses a closed arc", what, s, t, path);
        at = b;
        sum += w as u64;
    }
    ensure_eq!(at, t, "{} {}->{}: edge path {:?} ends wrong", what, s, t, path);
    ensure_eq!(sum, dist, "{} {}->{}: edge path {:?} has wrong length", what, s, t, path);
    Ok(())
}

/// Node order for contraction: random permutation, degree based, identity/reverse or nested-dissection like.
pub fn order(c: &mut Case, g: &G) -> NodeOrder {
    let n = g.n;
    // bad orders of graphs with nodes of huge degree need quadratically many shortcuts
    match if n > 200 { 1 } else { c.weighted(&[3, 2, 1, 1]) } {
        0 => NodeOrder::from_node_order(c.permutation(n)),
        1 => {
            // greedy min degree on the undirected fill-in graph: the kind of order users supply
            NodeOrder::from_node_order(min_degree_order(g))
        }
        2 => NodeOrder::from_node_order((0..n as u32).collect()),
        _ => NodeOrder::from_node_order((0..n as u32).rev().collect()),
    }
}

pub fn min_degree_order(g: &G) -> Vec<u32> {
    let n = g.n;
    let mut adj: Vec<std::collections::BTreeSet<u32>> = vec![Default::default(); n];
    for &(a, b, _) in &g.edges {
        if a != b {
            adj[a as usize].insert(b);
            adj[b as usize].insert(a);
        }
    }
    let mut done = vec![false; n];
    let mut ord = Vec::with_capacity(n);
    for _ in 0..n {
        let v = (0..n).filter(|&v| !done[v]).min_by_key(|&v| adj[v].len()).unwrap();
        done[v] = true;
        ord.push(v as u32);
        let nb: Vec<u32> = adj[v].iter().copied().collect();
        for &x in &nb {
            adj[x as usize].remove(&(v as u32));
            for &y in &nb {
                if x != y {
                    adj[x as usize].insert(y);
                }
            }
        }
    }
    ord
}

pub fn has_path_of_len(d: &[Vec<u64>]) -> bool {
    d.iter().enumerate().any(|(s, r)| r.iter().enumerate().any(|(t, &x)| s != t && x != INF))
}
