//! Potentials: feasible lower bounds (exact where promised), independent of the evaluation history.
//! A*: goal direction never changes the answer.

use crate::c03::TmpDir;
use crate::gen::*;
use crate::pbt::{Sub, *};
use rand::{rngs::StdRng, SeedableRng};
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::ALTPotData;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::contraction_hierarchy::overlay;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server as BiDir;
use rust_road_router::algo::dijkstra::query::dijkstra::Server;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::*;
use rust_road_router::io::*;

pub static PROP: Property = Property {
    id: "C06",
    rule: "some potential of the history is evaluated at a node with a finite non-zero distance to the target",
    subs: &[
        Sub { name: "exact", f: exact, quick: 100_000, thorough: 4_000_000, big: false },
        Sub { name: "exact_big", f: exact, quick: 12_000, thorough: 400_000, big: true },
        Sub { name: "alt", f: alt, quick: 900_000, thorough: 10_000_000, big: false },
        Sub { name: "alt_big", f: alt, quick: 30_000, thorough: 200_000, big: true },
        Sub { name: "bucket", f: bucket, quick: 900_000, thorough: 10_000_000, big: false },
        Sub { name: "bucket_big", f: bucket, quick: 40_000, thorough: 200_000, big: true },
    ],
};

pub static PROP07: Property = Property {
    id: "C07",
    rule: "some query of the history has two different end points and a finite distance, with a potential that is not identically zero on the path",
    subs: &[
        Sub { name: "uni", f: astar_uni, quick: 150_000, thorough: 8_000_000, big: false },
        Sub { name: "uni_big", f: astar_uni, quick: 30_000, thorough: 1_000_000, big: true },
        Sub { name: "bidir", f: astar_bidir, quick: 350_000, thorough: 15_000_000, big: false },
        Sub { name: "bidir_big", f: astar_bidir, quick: 50_000, thorough: 1_500_000, big: true },
    ],
};

fn cfg(c: &Case) -> Cfg {
    Cfg { inf: true, max_n: if c.big { 120 } else { 11 }, ..CFG }
}

/// Erased potential, so that a history can mix all kinds.
pub struct Pot<'a>(pub Box<dyn Potential + 'a>);
impl<'a> Potential for Pot<'a> {
    fn init(&mut self, t: NodeId) {
        self.0.init(t)
    }
    fn potential(&mut self, v: NodeId) -> Option<Weight> {
        self.0.potential(v)
    }
}

/// One history of inits and evaluations in arbitrary order against the exact distances to the target.
fn history(c: &mut Case, pot: &mut dyn Potential, back: &[Vec<u64>], what: &str) -> Result<(), String> {
    let n = back.len();
    let rounds = c.size(1, 4);
    for _ in 0..rounds {
        let t = c.u32(0, n as u32 - 1);
        pot.init(t);
        c.note(|| format!("{}: init {}", what, t));
        let k = if c.coin() { n } else { c.size(1, 6) };
        for i in 0..k {
            let v = if k == n { i as u32 } else { c.u32(0, n as u32 - 1) };
            let e = back[t as usize][v as usize];
            if e != INF && e > 0 {
                c.nontrivial();
            }
            ensure_eq!(pot.potential(v), w(e), "{}: potential of {} for target {}", what, v, t);
        }
    }
    Ok(())
}

fn exact(c: &mut Case) -> Result<(), String> {
    let kind = c.draw(7);
    let mut cfg = cfg(c);
    if kind == 4 || kind == 5 {
        cfg.inf = false; // the classic CH does not know closed arcs
    }
    let g = graph(c, &cfg);
    let n = g.n;
    c.note(|| g.desc());
    let graph = g.owned();
    let rev = g.reversed();
    let back = rev.all_dists(); // back[t][v] = dist(v, t)
    match kind {
        0 => {
            let mut p = BaselinePotential::new(&graph);
            history(c, &mut p, &back, "Baseline")?;
            let mut p = RecyclingPotential::new(p);
            history(c, &mut p, &back, "Recycling(Baseline)")
        }
        1 | 2 | 3 | 6 | 7 => {
            let ord = order(c, &g);
            c.note(|| format!("order {:?}", ord.order()));
            let cch = CCH::fix_order_and_build(&graph, ord);
            let data = CCHPotData::new(&cch, &graph);
            match kind {
                1 => {
                    let mut p = data.forward_potential();
                    history(c, &mut p, &back, "CCH forward")?;
                    let fw = g.all_dists();
                    let mut p = data.backward_potential();
                    history(c, &mut p, &fw, "CCH backward")
                }
                2 => {
                    let mut p = RecyclingPotential::new(data.forward_potential());
                    history(c, &mut p, &back, "Recycling(CCH)")?;
                    let mut p = data.ch_forward_potential();
                    history(c, &mut p, &back, "CH potential on CCH")
                }
                3 => {
                    let perm = NodeOrder::from_node_order(c.permutation(n));
                    c.note(|| format!("permutation {:?}", perm.order()));
                    // ranks of perm -> nodes of g
                    let pb: Vec<Vec<u64>> = (0..n as u32)
                        .map(|t| (0..n as u32).map(|v| back[perm.node(t) as usize][perm.node(v) as usize]).collect())
                        .collect();
                    let mut p = PotentialForPermutated { order: perm, potential: data.forward_potential() };
                    history(c, &mut p, &pb, "Permutated(CCH)")
                }
                6 => {
                    let mut p = TurnExpandedPotential::new(&graph, data.forward_potential());
                    if g.m() == 0 {
                        return Ok(());
                    }
                    let fwd = |e: usize| g.edges[e].0 as usize;
                    let pb: Vec<Vec<u64>> = (0..g.m()).map(|t| (0..g.m()).map(|v| back[fwd(t)][fwd(v)]).collect()).collect();
                    history(c, &mut p, &pb, "TurnExpanded(CCH)")
                }
                _ => path_potential(c, &g, &cch, &data, &back),
            }
        }
        _ => {
            let ord = order(c, &g);
            c.note(|| format!("order {:?}", ord.order()));
            let (fw, bw) = overlay(&graph, ord.clone(), n);
            if kind == 4 {
                let mut p = CHPotential::new(fw.clone(), bw.clone(), ord.clone());
                history(c, &mut p, &back, "CH forward")?;
                let mut p = CHPotential::new(bw, fw, ord);
                history(c, &mut p, &g.all_dists(), "CH backward")
            } else {
                // stored and loaded again
                let dir = TmpDir::new();
                let p = &dir.0;
                fw.first_out().write_to(&p.join("forward_first_out")).unwrap();
                fw.head().write_to(&p.join("forward_head")).unwrap();
                fw.weight().write_to(&p.join("forward_weight")).unwrap();
                bw.first_out().write_to(&p.join("backward_first_out")).unwrap();
                bw.head().write_to(&p.join("backward_head")).unwrap();
                bw.weight().write_to(&p.join("backward_weight")).unwrap();
                ord.order().write_to(&p.join("order")).unwrap();
                if c.coin() {
                    let mut p = CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&p).unwrap();
                    history(c, &mut p, &back, "loaded CH potential")
                } else {
                    let l = CHPotLoader::reconstruct_from(&p).unwrap();
                    let (mut f, mut b) = l.potentials();
                    history(c, &mut f, &back, "CHPotLoader forward")?;
                    history(c, &mut b, &g.all_dists(), "CHPotLoader backward")
                }
            }
        }
    }
}

/// Path potentials work on CCH ranks; the parents describe a shortest path to (from) the target once unpacked.
fn path_potential(c: &mut Case, g: &G, cch: &CCH, data: &CCHPotData, back: &[Vec<u64>]) -> Result<(), String> {
    let n = g.n;
    let ord = cch.node_order();
    let zero = g.edges.iter().any(|e| e.2 == 0);
    fn run<const F: bool>(c: &mut Case, g: &G, ord: &NodeOrder, pot: &mut CCHPotentialWithPathUnpacking<F>, dist: &[Vec<u64>], zero: bool) -> Result<(), String> {
        let n = g.n as u32;
        let rounds = c.size(1, 3);
        for _ in 0..rounds {
            let t = c.u32(0, n - 1);
            pot.init(ord.rank(t));
            c.note(|| format!("path potential (backward={}) init {}", F, t));
            let k = c.size(1, 8);
            for _ in 0..k {
                let v = c.u32(0, n - 1);
                let e = dist[t as usize][v as usize];
                c.note(|| format!("evaluate {}", v));
                ensure_eq!(pot.potential(ord.rank(v)), w(e), "path potential of {} for target {}", v, t);
                if e == INF {
                    continue;
                }
                if e > 0 {
                    c.nontrivial();
                }
                // zero weight arcs: shortest paths are not unique and the parents may form ties
                if !zero && c.coin() {
                    c.note(|| format!("unpack {}", v));
                    c.label("unpacked");
                    pot.unpack_path(NodeIdT(ord.rank(v)));
                    let tree = pot.target_shortest_path_tree();
                    let mut path = vec![v];
                    let mut cur = ord.rank(v);
                    while cur != ord.rank(t) {
                        cur = tree[cur as usize].0;
                        ensure!(cur < n && path.len() <= n as usize, "path potential: parents from {} do not lead to {}", v, t);
                        path.push(ord.node(cur));
                    }
                    if F {
                        path.reverse();
                        check_node_path(g, &path, t, v, e, "backward path potential")?;
                    } else {
                        check_node_path(g, &path, v, t, e, "path potential")?;
                    }
                }
            }
        }
        Ok(())
    }
    let _ = n;
    run(c, g, ord, &mut data.forward_path_potential(), back, zero)?;
    run(c, g, ord, &mut data.backward_path_potential(), &g.all_dists(), zero)
}

/// Landmark potentials: admissible, consistent, zero at the target.
fn check_alt(c: &mut Case, g: &G, pot: &mut dyn Potential, back: &[Vec<u64>], what: &str) -> Result<(), String> {
    let n = g.n as u32;
    let rounds = c.size(1, 3);
    for _ in 0..rounds {
        let t = c.u32(0, n - 1);
        pot.init(t);
        c.note(|| format!("{}: init {}", what, t));
        let p: Vec<Option<Weight>> = (0..n).map(|v| pot.potential(v)).collect();
        ensure_eq!(p[t as usize], Some(0), "{}: potential of the target {}", what, t);
        for v in 0..n {
            let d = back[t as usize][v as usize];
            match p[v as usize] {
                Some(x) => ensure!(x as u64 <= d, "{}: potential of {} for target {} is {}, above the distance {}", what, v, t, x, d),
                None => ensure!(d == INF, "{}: no potential of {} for target {} although the distance is {}", what, v, t, d),
            }
            if d != INF && d > 0 && p[v as usize].unwrap() > 0 {
                c.nontrivial();
            }
        }
        for &(a, b, w) in &g.edges {
            if w < INFINITY {
                if let (Some(x), Some(y)) = (p[a as usize], p[b as usize]) {
                    ensure!(x as u64 <= w as u64 + y as u64, "{}: inconsistent on arc {}->{} (weight {}): {} vs {}", what, a, b, w, x, y);
                }
            }
        }
    }
    Ok(())
}

pub fn alt_data(c: &mut Case, g: &G) -> ALTPotData {
    let graph = g.owned();
    let n = g.n as u32;
    let k = c.size(1, 4);
    let strongly = g.dists(0).iter().all(|&d| d != INF) && g.reversed().dists(0).iter().all(|&d| d != INF);
    // landmark selection is defined on strongly connected networks, farthest needs positive weights to make progress
    let positive = g.edges.iter().all(|e| e.2 > 0);
    let pick = c.draw(2);
    match if !strongly || (pick == 1 && !positive) { 0 } else { pick } {
        0 => {
            let l: Vec<u32> = (0..k).map(|_| c.u32(0, n - 1)).collect();
            c.note(|| format!("landmarks {:?}", l));
            ALTPotData::new(&graph, l)
        }
        1 => {
            let init = c.u32(0, n - 1);
            let l = ALTPotData::farthest_landmarks(&graph, k.min(g.n), init);
            c.note(|| format!("farthest landmarks from {}: {:?}", init, l));
            ALTPotData::new(&graph, l)
        }
        _ => {
            let seed = c.draw(1000);
            c.note(|| format!("{} avoid landmarks, rng seed {}", k, seed));
            c.label("avoid");
            ALTPotData::new_with_avoid(&graph, k, &mut StdRng::seed_from_u64(seed))
        }
    }
}

fn alt(c: &mut Case) -> Result<(), String> {
    let strongly = c.coin();
    let cfg = Cfg { strongly_connected: strongly, inf: true, max_n: if c.big { 90 } else { 10 }, ..CFG };
    let g = graph(c, &cfg);
    c.note(|| g.desc());
    let data = alt_data(c, &g);
    let rev = g.reversed();
    let back = rev.all_dists();
    let fwd = g.all_dists();
    check_alt(c, &g, &mut data.forward_potential(), &back, "ALT forward")?;
    check_alt(c, &rev, &mut data.backward_potential(), &fwd, "ALT backward")
}

fn bucket(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { inf: false, max_n: if c.big { 90 } else { 11 }, ..CFG };
    let g = graph(c, &cfg);
    let n = g.n as u32;
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let (fw, bw) = overlay(&g.owned(), ord.clone(), g.n);
    let mut pot = BucketCHPotential::new(fw, bw, ord);
    let rounds = c.size(1, 4);
    let back = g.reversed();
    for _ in 0..rounds {
        let t: Vec<u32> = if c.coin() {
            let k = c.size(1, 6);
            (0..k).map(|_| c.u32(0, n - 1)).collect()
        } else {
            let k = c.size(1, (n as usize).min(6));
            let mut t = c.permutation(g.n);
            t.truncate(k);
            t
        };
        let k = t.len();
        pot.init(&t);
        c.note(|| format!("targets {:?}", t));
        let d: Vec<Vec<u64>> = t.iter().map(|&t| back.dists(t)).collect();
        let q = c.size(1, 6);
        for _ in 0..q {
            let v = c.u32(0, n - 1);
            let p = pot.potential(v);
            ensure_eq!(p.len(), k, "number of bucket potentials");
            for i in 0..k {
                let e = d[i][v as usize];
                if e != INF && e > 0 {
                    c.nontrivial();
                }
                let got = p[i];
                match w(e) {
                    Some(e) => ensure_eq!(got, e, "bucket potential of {} for target {}", v, t[i]),
                    None => ensure!(got >= INFINITY, "bucket potential of {} for unreachable target {} is {}", v, t[i], got),
                }
            }
        }
    }
    Ok(())
}

/// Weights that bound the ones of g from below.
pub fn lower_bound(c: &mut Case, g: &G) -> G {
    let k = c.draw(3);
    let w: Vec<u32> = g
        .edges
        .iter()
        .map(|e| match k {
            0 => e.2,
            1 => {
                if e.2 >= INFINITY {
                    e.2
                } else {
                    e.2 - e.2 / 4
                }
            }
            2 => {
                if e.2 >= INFINITY {
                    if c.coin() {
                        e.2
                    } else {
                        c.u32(0, 30)
                    }
                } else {
                    c.u32(0, e.2)
                }
            }
            _ => {
                if c.chance(1, 3) && e.2 < INFINITY {
                    e.2 / 2
                } else {
                    e.2
                }
            }
        })
        .collect();
    g.with_weights(&w)
}

/// Run `f` with a forward and a backward potential for lb.
pub fn with_pots(c: &mut Case, lb: &G, f: &mut dyn FnMut(&mut Case, Pot, Pot) -> Result<(), String>) -> Result<(), String> {
    let graph = lb.owned();
    let kind = c.weighted(&[3, 2, 3, 1, 1]);
    let closed = lb.edges.iter().any(|e| e.2 >= INFINITY);
    match kind {
        0 => {
            c.note(|| "Baseline potentials".to_string());
            let r = OwnedGraph::reversed(&graph);
            f(c, Pot(Box::new(BaselinePotential::new(&graph))), Pot(Box::new(BaselinePotential::new(&r))))
        }
        1 => {
            let ord = order(c, lb);
            c.note(|| format!("CCH potentials, order {:?}", ord.order()));
            let cch = CCH::fix_order_and_build(&graph, ord);
            let data = CCHPotData::new(&cch, &graph);
            if c.coin() {
                f(c, Pot(Box::new(RecyclingPotential::new(data.forward_potential()))), Pot(Box::new(RecyclingPotential::new(data.backward_potential()))))
            } else {
                f(c, Pot(Box::new(data.forward_potential())), Pot(Box::new(data.backward_potential())))
            }
        }
        2 => {
            c.note(|| "ALT potentials".to_string());
            let data = alt_data(c, lb);
            f(c, Pot(Box::new(data.forward_potential())), Pot(Box::new(data.backward_potential())))
        }
        3 if !closed => {
            let ord = order(c, lb);
            c.note(|| format!("CH potentials, order {:?}", ord.order()));
            let (fw, bw) = overlay(&graph, ord.clone(), lb.n);
            f(c, Pot(Box::new(CHPotential::new(fw.clone(), bw.clone(), ord.clone()))), Pot(Box::new(CHPotential::new(bw, fw, ord))))
        }
        _ => {
            c.note(|| "Zero potentials".to_string());
            f(c, Pot(Box::new(ZeroPotential())), Pot(Box::new(ZeroPotential())))
        }
    }
}

fn astar_uni(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let lb = lower_bound(c, &g);
    c.note(|| format!("{} lower bounds {:?}", g.desc(), lb.weights()));
    with_pots(c, &lb, &mut |c, pot, _| {
        let mut srv = Server::<OwnedGraph, DefaultOpsWithLinkPath, _>::with_potential(g.owned(), pot);
        let q = c.size(1, 6);
        for _ in 0..q {
            let s = c.u32(0, g.n as u32 - 1);
            let t = c.u32(0, g.n as u32 - 1);
            let dt = g.dists(s)[t as usize];
            if s != t && dt != INF && lb.dists(s)[t as usize] > 0 {
                c.nontrivial();
            }
            c.note(|| format!("query {}->{}", s, t));
            let mut r = srv.query(Query { from: s, to: t });
            ensure_eq!(r.distance(), w(dt), "A* distance {}->{}", s, t);
            match r.node_path() {
                Some(p) => {
                    check_node_path(&g, &p, s, t, dt, "A*")?;
                    let e: Vec<EdgeId> = r.edge_path().unwrap().into_iter().map(|EdgeIdT(e)| e).collect();
                    check_edge_path(&g, &e, s, t, dt, "A*")?;
                }
                None => ensure!(dt == INF, "A* {}->{}: no path although connected", s, t),
            }
        }
        Ok(())
    })
}

fn bidir_run<P: BiDirPotential, D: BidirChooseDir>(c: &mut Case, g: &G, lb: &G, pot: P, what: &str) -> Result<(), String> {
    let mut srv = BiDir::<OwnedGraph, OwnedGraph, P, D>::new_with_potentials(g.owned(), pot);
    let q = c.size(1, 6);
    for _ in 0..q {
        let s = c.u32(0, g.n as u32 - 1);
        let t = c.u32(0, g.n as u32 - 1);
        let dt = g.dists(s)[t as usize];
        if s != t && dt != INF && lb.dists(s)[t as usize] > 0 {
            c.nontrivial();
        }
        if c.chance(1, 5) {
            let cap = if dt != INF && c.coin() { (dt as u32).saturating_add(c.u32(0, 4)).saturating_sub(2) } else { c.u32(0, 40) };
            c.note(|| format!("{} capped query {}->{} cap {}", what, s, t, cap));
            c.label("capped");
            let r = srv.distance_with_cap(s, t, cap, |_, _, _| ());
            if dt != INF && dt < cap as u64 {
                ensure_eq!(r, w(dt), "{} distance {}->{} with cap {}", what, s, t, cap);
            } else if let Some(r) = r {
                ensure!(dt != INF && r as u64 >= dt, "{} distance {}->{} with cap {}: {} is below the distance {:?}", what, s, t, cap, r, w(dt));
            }
        } else {
            c.note(|| format!("{} query {}->{}", what, s, t));
            let mut r = srv.query(Query { from: s, to: t });
            ensure_eq!(r.distance(), w(dt), "{} distance {}->{}", what, s, t);
            match r.node_path() {
                Some(p) => check_node_path(g, &p, s, t, dt, what)?,
                None => ensure!(dt == INF, "{} {}->{}: no path although connected", what, s, t),
            }
        }
    }
    Ok(())
}

fn astar_bidir(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let lb = lower_bound(c, &g);
    c.note(|| format!("{} lower bounds {:?}", g.desc(), lb.weights()));
    let kind = c.draw(4);
    let min = c.coin();
    let perm = NodeOrder::from_node_order(c.permutation(g.n));
    with_pots(c, &lb, &mut |c, f, b| {
        macro_rules! go {
            ($p:expr, $w:expr) => {
                if min {
                    bidir_run::<_, ChooseMinKeyDir>(c, &g, &lb, $p, concat!($w, "/min key"))
                } else {
                    bidir_run::<_, AlternatingDirs>(c, &g, &lb, $p, concat!($w, "/alternating"))
                }
            };
        }
        match kind {
            0 => go!(AveragePotential::<_, _, false>::new(f, b), "average A*"),
            1 => go!(AveragePotential::<_, _, true>::new(f, b), "average A* with improved pruning"),
            2 => go!(SymmetricBiDirPotential::<_, _, false>::new(f, b), "symmetric A*"),
            3 => go!(SymmetricBiDirPotential::<_, _, true>::new(f, b), "symmetric A* with improved pruning"),
            _ => {
                // the same search on the permutated graph
                c.note(|| format!("permutation {:?}", perm.order()));
                let mut pe: Vec<_> = g.edges.iter().map(|&(a, b, w)| (perm.rank(a), perm.rank(b), w)).collect();
                pe.sort_by_key(|e| e.0);
                let pg = G { n: g.n, edges: pe };
                let mut pl: Vec<_> = lb.edges.iter().map(|&(a, b, w)| (perm.rank(a), perm.rank(b), w)).collect();
                pl.sort_by_key(|e| e.0);
                let plb = G { n: g.n, edges: pl };
                let p = PotentialForPermutated { order: perm.clone(), potential: SymmetricBiDirPotential::<_, _, true>::new(f, b) };
                if min {
                    bidir_run::<_, ChooseMinKeyDir>(c, &pg, &plb, p, "permutated symmetric A*")
                } else {
                    bidir_run::<_, AlternatingDirs>(c, &pg, &plb, p, "permutated symmetric A*")
                }
            }
        }
    })
}
