//! Customizable Contraction Hierarchies: queries, topology, parallel customization.

use crate::gen::*;
use crate::pbt::{Sub, *};
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server, *};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;

pub static PROP: Property = Property {
    id: "C03",
    rule: "at least one query of the history connects two different nodes over a path of two or more arcs (distance finite) and the history contains at least one metric",
    subs: &[
        Sub { name: "cch", f: cch_queries, quick: 100_000, thorough: 4_000_000, big: false },
        Sub { name: "cch_big", f: cch_queries, quick: 8_000, thorough: 250_000, big: true },
    ],
};

pub fn cfg(c: &Case) -> Cfg {
    Cfg { inf: true, max_n: if c.big { 110 } else { 11 }, ..CFG }
}

/// Weights for the given topology: generated like the weights of a fresh graph, with closed arcs.
pub fn metric(c: &mut Case, g: &G, cfg: &Cfg) -> G {
    let kind = weight_kind(c);
    let inf_p = if cfg.inf { *c.pick(&[0u64, 0, 1, 4, 12]) } else { 0 };
    let ws: Vec<Weight> = (0..g.m())
        .map(|_| {
            if inf_p > 0 && c.chance(inf_p, 16) {
                INFINITY
            } else {
                weight(c, kind, cfg, g.n)
            }
        })
        .collect();
    g.with_weights(&ws)
}

/// Every arc of a customized hierarchy must be an upper bound on the distance between its endpoints
/// (exact if perf == EXACT), and must unpack into a valid pair of arcs. After perfect customization of
/// a directed or reduced hierarchy (REMOVED) arcs longer than the distance may survive; no shortest
/// path uses them, so they need not unpack.
pub const BASIC: u8 = 0;
pub const REMOVED: u8 = 1;
pub const EXACT: u8 = 2;

pub fn check_customized<C: Customized>(g: &G, cust: &C, perf: u8, what: &str) -> Result<(), String> {
    let perfect = perf == EXACT;
    let ord = cust.cch().node_order().clone();
    let d = g.all_dists();
    for (up, graph) in [(true, cust.forward_graph()), (false, cust.backward_graph())] {
        let tails = if up { cust.forward_tail() } else { cust.backward_tail() };
        for v in 0..g.n as u32 {
            for (l, e) in LinkIterable::<Link>::link_iter(&graph, v).zip(graph.neighbor_edge_indices(v)) {
                ensure!(l.node > v, "{}: arc {}->{} is not upward", what, v, l.node);
                ensure_eq!(tails[e as usize], v, "{}: tail of arc {}", what, e);
                let (a, b) = if up { (v, l.node) } else { (l.node, v) };
                let dist = d[ord.node(a) as usize][ord.node(b) as usize];
                if l.weight >= INFINITY {
                    ensure!(!perfect || dist == INF, "{}: arc {}->{} (ranks) is closed although the distance is {}", what, a, b, dist);
                    continue;
                }
                ensure!(dist != INF && l.weight as u64 >= dist, "{}: arc {}->{} (ranks) has weight {} below the distance {:?}", what, a, b, l.weight, w(dist));
                if perfect {
                    ensure_eq!(l.weight as u64, dist, "{}: perfect arc {}->{} (ranks)", what, a, b);
                }
                if perf == REMOVED && l.weight as u64 > dist {
                    continue;
                }
                let unpacked = if up { cust.unpack_outgoing(EdgeIdT(e)) } else { cust.unpack_incoming(EdgeIdT(e)) };
                match unpacked {
                    Some((EdgeIdT(down), EdgeIdT(upw), NodeIdT(mid))) => {
                        ensure!(mid < v, "{}: middle node {} of arc {}->{} is not lower", what, mid, a, b);
                        let fwg = cust.forward_graph();
                        let bwg = cust.backward_graph();
                        ensure_eq!(cust.backward_tail()[down as usize], mid, "{}: unpacked down arc", what);
                        ensure_eq!(cust.forward_tail()[upw as usize], mid, "{}: unpacked up arc", what);
                        ensure_eq!(bwg.head()[down as usize], a, "{}: unpacked down arc of {}->{}", what, a, b);
                        ensure_eq!(fwg.head()[upw as usize], b, "{}: unpacked up arc of {}->{}", what, a, b);
                        ensure_eq!(bwg.weight()[down as usize] as u64 + fwg.weight()[upw as usize] as u64, l.weight as u64, "{}: unpacked weights of {}->{}", what, a, b);
                    }
                    None => {
                        ensure_eq!(g.min_arc(ord.node(a), ord.node(b)), Some(l.weight), "{}: arc {}->{} (ranks) does not unpack and is no input arc", what, a, b);
                    }
                }
            }
        }
    }
    Ok(())
}

fn history<C: Customized>(c: &mut Case, g: &G, cfg: &Cfg, perf: u8, what: &str, make: impl Fn(&OwnedGraph) -> C) -> Result<(), String> {
    let mut cur = g.clone();
    c.note(|| format!("{}: metric {:?}", what, cur.weights()));
    let cust = make(&cur.owned());
    check_customized(&cur, &cust, perf, what)?;
    let mut srv = Server::new(cust);
    let steps = c.size(1, 8);
    for _ in 0..steps {
        if c.chance(1, 4) {
            cur = metric(c, g, cfg);
            c.note(|| format!("update: metric {:?}", cur.weights()));
            c.label("update");
            let cust = make(&cur.owned());
            check_customized(&cur, &cust, perf, what)?;
            srv.update(cust);
        }
        let s = c.u32(0, g.n as u32 - 1);
        let t = c.u32(0, g.n as u32 - 1);
        let d = cur.dists(s)[t as usize];
        c.note(|| format!("query {}->{}", s, t));
        let with_path = c.chance(3, 4);
        let mut r = srv.query(Query { from: s, to: t });
        ensure_eq!(r.distance(), w(d), "{} distance {}->{}", what, s, t);
        if with_path {
            match r.node_path() {
                Some(p) => {
                    check_node_path(&cur, &p, s, t, d, what)?;
                    ensure_eq!(r.edge_path().map(|e| e.len()), Some(p.len() - 1), "{} edge path length {}->{}", what, s, t);
                    if p.len() > 2 {
                        c.nontrivial();
                    }
                }
                None => ensure!(d == INF, "{} {}->{}: no path although connected", what, s, t),
            }
        }
    }
    Ok(())
}

pub fn scratch_dir() -> std::path::PathBuf {
    let base = std::env::var("PBT_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = base.join(format!("rrr-pbt-dir-{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub struct TmpDir(pub std::path::PathBuf);
impl TmpDir {
    pub fn new() -> Self {
        TmpDir(scratch_dir())
    }
}
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn cch_queries(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let graph = g.owned();
    let cch = CCH::fix_order_and_build(&graph, ord);
    match c.weighted(&[3, 3, 2, 3, 1, 1, 1]) {
        0 => history(c, &g, &cfg, BASIC, "basic", |m| customize(&cch, m)),
        1 => history(c, &g, &cfg, EXACT, "perfect", |m| customize_perfect(customize(&cch, m))),
        2 => {
            let d = cch.to_directed_cch();
            history(c, &g, &cfg, BASIC, "directed", |m| customize_directed(&d, m))
        }
        3 => {
            let d = cch.to_directed_cch();
            history(c, &g, &cfg, REMOVED, "directed perfect", |m| customize_directed_perfect(customize_directed(&d, m)))
        }
        4 => {
            let r = cch.remove_always_infinity();
            history(c, &g, &cfg, BASIC, "basic, reduced", |m| customize(&r, m))
        }
        5 => {
            let r = cch.remove_always_infinity();
            history(c, &g, &cfg, REMOVED, "perfect, reduced", |m| customize_perfect(customize(&r, m)))
        }
        _ => {
            c.label("stored_customization");
            history(c, &g, &cfg, EXACT, "perfect, stored and loaded", |m| -> CustomizedPerfect<CCH> {
                let dir = TmpDir::new();
                customize_perfect(customize(&cch, m)).deconstruct_to(&dir.0).unwrap();
                (&cch).reconstruct_from(&dir.0).unwrap()
            })
        }
    }
}

// ---------------------------------------------------------------- C04: preprocessing

pub static PROP04: Property = Property {
    id: "C04",
    rule: "the elimination inserts at least one shortcut that is not an input arc, or the input has at least two components",
    subs: &[
        Sub { name: "topology", f: topology, quick: 150_000, thorough: 5_000_000, big: false },
        Sub { name: "topology_big", f: topology, quick: 5_000, thorough: 150_000, big: true },
        Sub { name: "reorder", f: reorderings, quick: 60_000, thorough: 2_000_000, big: false },
        Sub { name: "reorder_big", f: reorderings, quick: 2_000, thorough: 60_000, big: true },
    ],
};

/// The elimination game, literally: upward neighbourhoods by rank.
pub fn eliminate(g: &G, ord: &NodeOrder) -> Vec<Vec<u32>> {
    let mut adj: Vec<std::collections::BTreeSet<u32>> = vec![Default::default(); g.n];
    for &(a, b, _) in &g.edges {
        let (a, b) = (ord.rank(a), ord.rank(b));
        if a != b {
            adj[a as usize].insert(b);
            adj[b as usize].insert(a);
        }
    }
    let mut up = Vec::new();
    for v in 0..g.n as u32 {
        let nb: Vec<u32> = adj[v as usize].iter().copied().collect();
        for &x in &nb {
            adj[x as usize].remove(&v);
            for &y in &nb {
                if x != y {
                    adj[x as usize].insert(y);
                }
            }
        }
        up.push(nb);
    }
    up
}

fn check_permutation(o: &NodeOrder, n: usize, what: &str) -> Result<(), String> {
    let mut s = o.order().to_vec();
    s.sort_unstable();
    ensure_eq!(s, (0..n as u32).collect::<Vec<_>>(), "{}: not a permutation: {:?}", what, o.order());
    for r in 0..n as u32 {
        ensure_eq!(o.rank(o.node(r)), r, "{}: rank and order are not inverse", what);
    }
    Ok(())
}

fn collect_separators(t: &separator_decomposition::SeparatorTree, seen: &mut Vec<u32>, parent_min: Option<u32>, elim: &[Option<u32>], what: &str) -> Result<usize, String> {
    let nodes: Vec<u32> = t.nodes.iter().collect();
    for w in nodes.windows(2) {
        ensure!(elim[w[1] as usize] == Some(w[0]), "{}: separator nodes {:?} are not a chain of the elimination tree", what, nodes);
    }
    if let Some(&top) = nodes.first() {
        ensure_eq!(elim[top as usize], parent_min, "{}: separator top {} hangs below the wrong node", what, top);
    }
    let below = nodes.last().copied().or(parent_min);
    let mut total = nodes.len();
    seen.extend(&nodes);
    for ch in &t.children {
        total += collect_separators(ch, seen, below, elim, what)?;
    }
    ensure_eq!(t.num_nodes, total, "{}: separator tree node count", what);
    Ok(total)
}

fn check_cch(g: &G, cch: &CCH, what: &str) -> Result<usize, String> {
    let ord = cch.node_order();
    check_permutation(ord, g.n, what)?;
    let up = eliminate(g, ord);
    ensure_eq!(cch.num_nodes(), g.n, "{}: number of nodes", what);
    let mut shortcuts = 0;
    let mut elim = Vec::new();
    let mut e = 0usize;
    let fwm: Vec<Vec<u32>> = cch.forward_cch_edge_to_orig_arc().iter().map(|s| s.iter().map(|x| x.0).collect()).collect();
    let bwm: Vec<Vec<u32>> = cch.backward_cch_edge_to_orig_arc().iter().map(|s| s.iter().map(|x| x.0).collect()).collect();
    ensure_eq!((fwm.len(), bwm.len()), (cch.num_arcs(), cch.num_arcs()), "{}: number of arc mappings", what);
    for v in 0..g.n as u32 {
        let nb: Vec<u32> = cch.neighbor_iter(v).collect();
        ensure_eq!(nb, up[v as usize], "{}: upward neighbours of rank {}", what, v);
        ensure_eq!(cch.degree(v), nb.len(), "{}: degree of {}", what, v);
        ensure_eq!(cch.neighbor_edge_indices_usize(v), e..e + nb.len(), "{}: arc range of {}", what, v);
        ensure_eq!(cch.elimination_tree()[v as usize].value(), nb.first().copied(), "{}: elimination tree parent of rank {}", what, v);
        elim.push(nb.first().copied());
        for &u in &nb {
            ensure_eq!(cch.edge_id_to_tail(e as u32), v, "{}: tail of arc {}", what, e);
            ensure_eq!(cch.forward_head()[e], u, "{}: head of arc {}", what, e);
            let (a, b) = (ord.node(v), ord.node(u));
            let mut f = fwm[e].clone();
            f.sort_unstable();
            let mut bk = bwm[e].clone();
            bk.sort_unstable();
            let ef: Vec<u32> = (0..g.m() as u32).filter(|&x| (g.edges[x as usize].0, g.edges[x as usize].1) == (a, b)).collect();
            let eb: Vec<u32> = (0..g.m() as u32).filter(|&x| (g.edges[x as usize].0, g.edges[x as usize].1) == (b, a)).collect();
            if ef.is_empty() && eb.is_empty() {
                shortcuts += 1;
            }
            ensure_eq!(f, ef, "{}: input arcs of CCH arc {}->{} (ranks)", what, v, u);
            ensure_eq!(bk, eb, "{}: input arcs of CCH arc {}<-{} (ranks)", what, v, u);
            e += 1;
        }
    }
    ensure_eq!(cch.num_arcs(), e, "{}: number of arcs", what);
    // inverted graph
    for v in 0..g.n as u32 {
        let inv: Vec<(u32, u32)> = LinkIterable::<(NodeIdT, Reversed)>::link_iter(cch.forward_inverted(), v).map(|(NodeIdT(x), Reversed(EdgeIdT(e)))| (x, e)).collect();
        let mut want = Vec::new();
        for lo in 0..v {
            for x in cch.neighbor_edge_indices_usize(lo) {
                if cch.forward_head()[x] == v {
                    want.push((lo, x as u32));
                }
            }
        }
        ensure_eq!(inv, want, "{}: downward neighbours of rank {}", what, v);
    }
    let mut seen = Vec::new();
    collect_separators(cch.separators(), &mut seen, None, &elim, what)?;
    seen.sort_unstable();
    ensure_eq!(seen, (0..g.n as u32).collect::<Vec<_>>(), "{}: separator tree does not cover every node once", what);
    Ok(shortcuts)
}

fn topology(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let graph = g.owned();
    let cch = contract(&graph, ord.clone());
    ensure_eq!(cch.node_order().order(), ord.order(), "contract must keep the given order");
    let sc = check_cch(&g, &cch, "contract")?;
    if sc > 0 {
        c.nontrivial();
        c.label("shortcuts");
    }
    if c.chance(1, 4) {
        c.label("stored");
        let dir = TmpDir::new();
        cch.deconstruct_to(&dir.0).unwrap();
        cch.node_order().deconstruct_to(&dir.0).unwrap();
        let again: CCH = CCHReconstrctor(&graph).reconstruct_from(&dir.0).map_err(|e| format!("reload failed: {}", e))?;
        ensure_eq!(again.node_order().order(), ord.order(), "order after reload");
        check_cch(&g, &again, "reloaded")?;
        ensure_eq!(again.first_out(), cch.first_out(), "first_out after reload");
        ensure_eq!(again.head(), cch.head(), "head after reload");
    }
    Ok(())
}

/// Orders derived from a CCH (for parallelisation, geographic, breadth first) are permutations that
/// yield equally correct hierarchies; the first one also satisfies the requirements of the
/// parallel customization and keeps the hierarchy (same filled graph).
fn reorderings(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let graph = g.owned();
    let cch = contract(&graph, ord.clone());
    let up = eliminate(&g, &ord);
    // filled graph in original ids
    let fill = |up: &Vec<Vec<u32>>, o: &NodeOrder| {
        let mut f: Vec<(u32, u32)> = up
            .iter()
            .enumerate()
            .flat_map(|(v, nb)| nb.iter().map(move |&u| (v as u32, u)))
            .map(|(a, b)| (o.node(a), o.node(b)))
            .map(|(a, b)| (a.min(b), a.max(b)))
            .collect();
        f.sort_unstable();
        f
    };
    let before = fill(&up, &ord);
    if !before.is_empty() && cch.separators().children.len() > 0 {
        c.nontrivial();
    }
    let fixed = CCH::fix_order_and_build(&graph, ord.clone());
    check_cch(&g, &fixed, "fix_order_and_build")?;
    let r = catches(|| fixed.separators().validate_for_parallelization());
    ensure!(r.is_ok(), "fixed order is not laid out for parallelisation: {:?}", r);
    let after = fill(&eliminate(&g, fixed.node_order()), fixed.node_order());
    ensure_eq!(after, before, "fixing the order changed the filled graph");
    let o2 = reorder_for_seperator_based_customization(cch.node_order(), cch.separators().clone());
    ensure_eq!(o2.order(), fixed.node_order().order(), "both ways of fixing the order must agree");

    let lat: Vec<f32> = (0..g.n).map(|_| c.u32(0, 50) as f32 * 0.25).collect();
    let lng: Vec<f32> = (0..g.n).map(|_| c.u32(0, 50) as f32 * 0.25).collect();
    let geo = reorder(&cch, &lat, &lng);
    check_permutation(&geo, g.n, "geographic reorder")?;
    let geo_cch = CCH::fix_order_and_build(&graph, geo);
    check_cch(&g, &geo_cch, "geographic reorder")?;
    let bfs = reorder_bfs(&cch);
    check_permutation(&bfs, g.n, "bfs reorder")?;
    let bfs_cch = contract(&graph, bfs);
    check_cch(&g, &bfs_cch, "bfs reorder")?;
    ensure_eq!(fill(&eliminate(&g, bfs_cch.node_order()), bfs_cch.node_order()), before, "breadth first order changed the filled graph");

    // the reduced and directed hierarchies drop exactly the arcs no metric can ever use
    let red = cch_reachable(&g, &fixed);
    let r = fixed.remove_always_infinity();
    let d = fixed.to_directed_cch();
    let mut e_u = Vec::new();
    let mut e_f = Vec::new();
    let mut e_b = Vec::new();
    for v in 0..g.n {
        for e in fixed.neighbor_edge_indices_usize(v as u32) {
            let h = fixed.forward_head()[e];
            if red[e].0 || red[e].1 {
                e_u.push((v as u32, h));
            }
            if red[e].0 {
                e_f.push((v as u32, h));
            }
            if red[e].1 {
                e_b.push((v as u32, h));
            }
        }
    }
    let list = |t: &[u32], h: &[u32]| t.iter().copied().zip(h.iter().copied()).collect::<Vec<_>>();
    ensure_eq!(list(r.forward_tail(), r.forward_head()), e_u, "arcs of the reduced hierarchy");
    ensure_eq!(list(d.forward_tail(), d.forward_head()), e_f, "upward arcs of the directed hierarchy");
    ensure_eq!(list(d.backward_tail(), d.backward_head()), e_b, "downward arcs of the directed hierarchy");
    Ok(())
}

/// For each CCH arc (v,u): is there a directed path v->u (u->v) whose inner nodes are all lower than v?
fn cch_reachable(g: &G, cch: &CCH) -> Vec<(bool, bool)> {
    let ord = cch.node_order();
    let n = g.n;
    let mut out = vec![Vec::new(); n];
    for &(a, b, _) in &g.edges {
        out[ord.rank(a) as usize].push(ord.rank(b));
    }
    let reach = |s: u32, t: u32, limit: u32| {
        let mut seen = vec![false; n];
        let mut st = vec![s];
        seen[s as usize] = true;
        while let Some(x) = st.pop() {
            for &y in &out[x as usize] {
                if y == t {
                    return true;
                }
                if y < limit && !seen[y as usize] {
                    seen[y as usize] = true;
                    st.push(y);
                }
            }
        }
        false
    };
    let mut res = Vec::new();
    for v in 0..n as u32 {
        for e in cch.neighbor_edge_indices_usize(v) {
            let u = cch.forward_head()[e];
            res.push((reach(v, u, v), reach(u, v, v)));
        }
    }
    res
}
