//! Topology optimisations (degree 2/3 chains, biconnected core) never change query results.

use crate::c06::*;
use crate::gen::*;
use crate::pbt::{Sub, *};
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::{BiDirCoreServer, BiDirServer, MultiThreadedBiDirSkipLowDegServer, Server, SkipLowDegServer, VirtualTopocoreOps};
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

pub static PROP: Property = Property {
    id: "C08",
    rule: "some query of the history has two different end points at a finite distance in a graph with at least one node of degree at most three",
    subs: &[
        Sub { name: "uni", f: uni, quick: 200_000, thorough: 8_000_000, big: false },
        Sub { name: "uni_big", f: uni, quick: 20_000, thorough: 1_000_000, big: true },
        Sub { name: "core", f: core, quick: 200_000, thorough: 8_000_000, big: false },
        Sub { name: "bidir", f: bidir, quick: 200_000, thorough: 8_000_000, big: false },
        Sub { name: "bidir_big", f: bidir, quick: 20_000, thorough: 1_000_000, big: true },
        Sub { name: "parallel", f: parallel, quick: 8_000, thorough: 1_000_000, big: false },
        Sub { name: "parallel_big", f: parallel, quick: 2_000, thorough: 200_000, big: true },
    ],
};

fn gr(c: &mut Case) -> G {
    let cfg = Cfg { inf: true, min_n: 2, max_n: if c.big { 120 } else { 13 }, ..CFG };
    let mut g = graph(c, &cfg);
    if c.big && c.chance(1, 60) {
        // a node of huge degree
        let k = c.u32(250, 270);
        let at = c.u32(0, g.n as u32 - 1);
        for i in 0..k {
            let v = g.n as u32 + i;
            g.edges.push((at, v, i % 7));
            g.edges.push((v, at, i % 5));
        }
        g.n += k as usize;
        g.edges.sort_by_key(|e| e.0);
        c.label("huge_degree");
    }
    // the topology analysis needs at least one biconnected component
    if !g.edges.iter().any(|e| e.0 != e.1) {
        g.edges.push((0, 1, 1));
        g.edges.sort_by_key(|e| e.0);
    }
    g
}

fn note_query(c: &mut Case, what: &str, s: u32, t: u32, d: u64) {
    c.note(|| format!("{} query {}->{}", what, s, t));
    if s != t && d != INF {
        c.nontrivial();
    }
}

fn uni(c: &mut Case) -> Result<(), String> {
    let g = gr(c);
    let lb = lower_bound(c, &g);
    c.note(|| format!("{} lower bounds {:?}", g.desc(), lb.weights()));
    let kind = c.draw(6);
    let graph = g.owned();
    with_pots(c, &lb, &mut |c, pot, _| {
        macro_rules! go {
            ($b:literal, $d2:literal, $d3:literal) => {{
                let what = concat!("topo server bcc=", $b, " deg2=", $d2, " deg3=", $d3);
                let mut srv = Server::<OwnedGraph, DefaultOps, Pot, $b, $d2, $d3>::new_custom(&graph, pot, DefaultOps());
                let q = c.size(1, 6);
                for _ in 0..q {
                    let s = c.u32(0, g.n as u32 - 1);
                    let t = c.u32(0, g.n as u32 - 1);
                    let d = g.dists(s)[t as usize];
                    note_query(c, what, s, t, d);
                    let mut r = srv.query(Query { from: s, to: t });
                    ensure_eq!(r.distance(), w(d), "{} distance {}->{}", what, s, t);
                    match r.node_path() {
                        Some(p) => check_node_path(&g, &p, s, t, d, what)?,
                        None => ensure!(d == INF, "{} {}->{}: no path", what, s, t),
                    }
                }
                Ok(())
            }};
        }
        match kind {
            0 => go!(false, false, false),
            1 => go!(false, true, false),
            2 => go!(false, true, true),
            3 => go!(true, false, false),
            4 => go!(true, true, false),
            _ => go!(true, true, true),
        }
    })
}

/// The graph in topology order, with the ids of the server.
fn topo_graph(g: &G) -> (G, VirtualTopocoreGraph<OwnedGraph>, VirtualTopocore) {
    let (fw, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new(&g.owned());
    let mut edges = Vec::new();
    for v in 0..g.n as u32 {
        for Link { node, weight } in LinkIterable::<Link>::link_iter(&fw, v) {
            edges.push((v, node, weight));
        }
    }
    (G { n: g.n, edges }, fw, topo)
}

fn topo_check(g: &G, tg: &G, topo: &VirtualTopocore) -> Result<(), String> {
    let mut a: Vec<_> = g.edges.iter().map(|&(a, b, w)| (topo.order.rank(a), topo.order.rank(b), w)).collect();
    let mut b = tg.edges.clone();
    a.sort();
    b.sort();
    ensure_eq!(b, a, "reordered graph");
    Ok(())
}

fn core(c: &mut Case) -> Result<(), String> {
    let g = gr(c);
    let (tg, fw, topo) = topo_graph(&g);
    topo_check(&g, &tg, &topo)?;
    let lb = lower_bound(c, &tg);
    c.note(|| format!("{} in topology order: {} lower bounds {:?}", g.desc(), tg.desc(), lb.weights()));
    let kind = c.draw(2);
    with_pots(c, &lb, &mut |c, pot, _| {
        macro_rules! go {
            ($d2:literal, $d3:literal) => {{
                let what = concat!("core server deg2=", $d2, " deg3=", $d3);
                let mut srv = SkipLowDegServer::<_, _, _, $d2, $d3>::new(fw.clone(), pot, VirtualTopocoreOps(DefaultOpsWithLinkPath()));
                let q = c.size(1, 6);
                for _ in 0..q {
                    let s = c.u32(0, g.n as u32 - 1);
                    if c.chance(1, 3) {
                        c.note(|| format!("{} one to all from {}", what, s));
                        let r = srv.one_to_all(s);
                        for (t, &d) in tg.dists(s).iter().enumerate() {
                            if s as usize != t && d != INF {
                                c.nontrivial();
                            }
                            let got = r.distance(t as u32);
                            match w(d) {
                                Some(d) => ensure_eq!(got, d, "{} one to all {}->{}", what, s, t),
                                None => ensure!(got >= INFINITY, "{} one to all {}->{}: {} but unreachable", what, s, t, got),
                            }
                            if let Some(mut at) = w(d).map(|_| t as u32) {
                                // predecessors lead back to the source with matching distances
                                let mut steps = 0;
                                while at != s {
                                    let p = r.predecessor(at);
                                    ensure!(p < g.n as u32 && steps < g.n, "{}: predecessors of {} do not lead to {}", what, t, s);
                                    let arc = tg.min_arc(p, at);
                                    ensure!(
                                        arc.map_or(false, |a| r.distance(p) as u64 + a as u64 == r.distance(at) as u64),
                                        "{} one to all from {}: {} is no tight predecessor of {}",
                                        what,
                                        s,
                                        p,
                                        at
                                    );
                                    at = p;
                                    steps += 1;
                                }
                            }
                        }
                        continue;
                    }
                    let t = c.u32(0, g.n as u32 - 1);
                    let d = tg.dists(s)[t as usize];
                    let query = Query { from: s, to: t };
                    let capped = c.coin();
                    let cap = if capped { let h = (2 * d.min(1_000_000)) as u32; c.u32(0, h + 2) } else { INFINITY };
                    note_query(c, what, s, t, d);
                    c.note(|| format!("cap {}", cap));
                    let mut r = if capped { srv.distance_with_cap(query, cap) } else { srv.query(query) };
                    if d == INF || d <= cap as u64 {
                        ensure_eq!(r.distance(), w(d), "{} distance {}->{} cap {}", what, s, t, cap);
                        match r.node_path() {
                            Some(p) => {
                                check_node_path(&tg, &p, s, t, d, what)?;
                                let e: Vec<EdgeId> = r.edge_path().unwrap().into_iter().map(|EdgeIdT(e)| e).collect();
                                check_edge_path(&tg, &e, s, t, d, what)?;
                            }
                            None => ensure!(d == INF, "{} {}->{}: no path", what, s, t),
                        }
                    } else {
                        // beyond the cap: either nothing or an upper bound of the distance
                        ensure!(r.distance().map_or(true, |x| x as u64 >= d), "{} capped distance {}->{} cap {}: {:?} below {}", what, s, t, cap, r.distance(), d);
                    }
                }
                Ok(())
            }};
        }
        match kind {
            0 => go!(false, false),
            1 => go!(true, false),
            _ => go!(true, true),
        }
    })
}

fn bidir(c: &mut Case) -> Result<(), String> {
    let g = gr(c);
    let graph = g.owned();
    let kind = c.draw(3);
    let min = c.coin();
    if c.coin() {
        let lb = lower_bound(c, &g);
        c.note(|| format!("{} lower bounds {:?}", g.desc(), lb.weights()));
        fn run<P: BiDirPotential, D: BidirChooseDir>(c: &mut Case, g: &G, graph: &OwnedGraph, pot: P, what: &str) -> Result<(), String> {
            let mut srv = BiDirServer::<P, D>::new(graph, pot);
            let q = c.size(1, 6);
            for _ in 0..q {
                let s = c.u32(0, g.n as u32 - 1);
                let t = c.u32(0, g.n as u32 - 1);
                let d = g.dists(s)[t as usize];
                note_query(c, what, s, t, d);
                let mut r = srv.query(Query { from: s, to: t });
                ensure_eq!(r.distance(), w(d), "{} distance {}->{}", what, s, t);
                match r.node_path() {
                    Some(p) => check_node_path(g, &p, s, t, d, what)?,
                    None => ensure!(d == INF, "{} {}->{}: no path", what, s, t),
                }
            }
            Ok(())
        }
        with_pots(c, &lb, &mut |c, f, b| {
            macro_rules! go {
                ($p:expr, $w:expr) => {
                    if min {
                        run::<_, ChooseMinKeyDir>(c, &g, &graph, $p, concat!("bidirectional topo server ", $w, "/min key"))
                    } else {
                        run::<_, AlternatingDirs>(c, &g, &graph, $p, concat!("bidirectional topo server ", $w, "/alternating"))
                    }
                };
            }
            match kind {
                0 => go!(AveragePotential::<_, _, false>::new(f, b), "average"),
                1 => go!(AveragePotential::<_, _, true>::new(f, b), "average with improved pruning"),
                2 => go!(SymmetricBiDirPotential::<_, _, false>::new(f, b), "symmetric"),
                _ => go!(SymmetricBiDirPotential::<_, _, true>::new(f, b), "symmetric with improved pruning"),
            }
        })
    } else {
        let (tg, fw, topo) = topo_graph(&g);
        topo_check(&g, &tg, &topo)?;
        let lb = lower_bound(c, &tg);
        c.note(|| format!("{} in topology order: {} lower bounds {:?}", g.desc(), tg.desc(), lb.weights()));
        fn run<P: BiDirPotential, D: BidirChooseDir>(
            c: &mut Case,
            tg: &G,
            lb: &G,
            fw: VirtualTopocoreGraph<OwnedGraph>,
            pot: P,
            what: &str,
        ) -> Result<(), String> {
            let mut srv = BiDirCoreServer::<P, D>::new(fw, pot);
            let q = c.size(1, 6);
            for _ in 0..q {
                let (s, t, d, cap, pot_cap) = core_query(c, tg, lb, what);
                let mut r = srv.distance_with_cap(Query { from: s, to: t }, cap, pot_cap);
                let dist = r.distance();
                let node_path = r.node_path();
                let edge_path = r.edge_path();
                check_core(tg, what, s, t, d, cap, pot_cap, dist, node_path, edge_path)?;
            }
            Ok(())
        }
        with_pots(c, &lb, &mut |c, f, b| {
            macro_rules! go {
                ($p:expr, $w:expr) => {
                    if min {
                        run::<_, ChooseMinKeyDir>(c, &tg, &lb, fw.clone(), $p, concat!("bidirectional core server ", $w, "/min key"))
                    } else {
                        run::<_, AlternatingDirs>(c, &tg, &lb, fw.clone(), $p, concat!("bidirectional core server ", $w, "/alternating"))
                    }
                };
            }
            match kind {
                0 => go!(AveragePotential::<_, _, false>::new(f, b), "average"),
                1 => go!(AveragePotential::<_, _, true>::new(f, b), "average with improved pruning"),
                2 => go!(SymmetricBiDirPotential::<_, _, false>::new(f, b), "symmetric"),
                _ => go!(SymmetricBiDirPotential::<_, _, true>::new(f, b), "symmetric with improved pruning"),
            }
        })
    }
}

/// A query with caps that never exclude a shortest path (or a cap below the distance).
fn core_query(c: &mut Case, tg: &G, _lb: &G, what: &str) -> (u32, u32, u64, u32, Option<u32>) {
    let n = tg.n as u32;
    let s = c.u32(0, n - 1);
    let t = c.u32(0, n - 1);
    let d = tg.dists(s)[t as usize];
    note_query(c, what, s, t, d);
    let h = (2 * d.min(INFINITY as u64 / 4)) as u32;
    let cap = match c.draw(2) {
        0 => INFINITY,
        1 => d.min(INFINITY as u64) as u32 + if d < INFINITY as u64 { c.u32(0, 3) } else { 0 },
        _ => c.u32(0, h + 2),
    };
    // lower bounds through the nodes of the shortest path are at most d
    let pot_cap = if d != INF && c.chance(1, 3) { Some(c.u32(d as u32, h.max(d as u32) + 2)) } else { None };
    c.note(|| format!("cap {} pot_cap {:?}", cap, pot_cap));
    (s, t, d, cap, pot_cap)
}

fn check_core(
    tg: &G,
    what: &str,
    s: u32,
    t: u32,
    d: u64,
    cap: u32,
    pot_cap: Option<u32>,
    dist: Option<u32>,
    node_path: Option<Vec<NodeId>>,
    edge_path: Option<Vec<EdgeIdT>>,
) -> Result<(), String> {
    if d == INF || d < cap as u64 {
        ensure_eq!(dist, w(d), "{} distance {}->{} cap {} pot_cap {:?}", what, s, t, cap, pot_cap);
        match node_path {
            Some(p) => {
                check_node_path(tg, &p, s, t, d, what)?;
                let e: Vec<EdgeId> = edge_path.unwrap().into_iter().map(|EdgeIdT(e)| e).collect();
                check_edge_path(tg, &e, s, t, d, what)?;
            }
            None => ensure!(d == INF, "{} {}->{}: no path", what, s, t),
        }
    } else {
        ensure!(dist.map_or(true, |x| x as u64 >= d), "{} capped distance {}->{} cap {}: {:?} below {}", what, s, t, cap, dist, d);
    }
    Ok(())
}

fn parallel(c: &mut Case) -> Result<(), String> {
    let g = gr(c);
    let (tg, fw, topo) = topo_graph(&g);
    topo_check(&g, &tg, &topo)?;
    let lb = lower_bound(c, &tg);
    c.note(|| format!("{} in topology order: {} lower bounds {:?}", g.desc(), tg.desc(), lb.weights()));
    fn run<P: BiDirPotential + Clone + Send>(
        c: &mut Case,
        tg: &G,
        lb: &G,
        fw: VirtualTopocoreGraph<OwnedGraph>,
        pot: P,
        what: &str,
    ) -> Result<(), String> {
        let mut srv = MultiThreadedBiDirSkipLowDegServer::<P>::new(fw, pot);
        let q = c.size(1, 60);
        for _ in 0..q {
            let (s, t, d, cap, pot_cap) = core_query(c, tg, lb, what);
            let mut r = srv.distance_with_cap(Query { from: s, to: t }, cap, pot_cap);
            let dist = r.distance();
            let node_path = r.node_path();
            let edge_path = r.edge_path();
            check_core(tg, what, s, t, d, cap, pot_cap, dist, node_path, edge_path)?;
        }
        Ok(())
    }
    let kind = c.draw(6);
    let graph = lb.owned();
    pin(&all_cpus());
    let ord = order(c, &lb);
    let cch = CCH::fix_order_and_build(&graph, ord);
    let data = CCHPotData::new(&cch, &graph);
    let (f, b) = (data.forward_potential(), data.backward_potential());
    match kind {
        0 => run(c, &tg, &lb, fw, SymmetricBiDirPotential::<_, _, true>::new(ZeroPotential(), ZeroPotential()), "parallel server zero"),
        1 => run(c, &tg, &lb, fw, SymmetricBiDirPotential::<_, _, true>::new(f, b), "parallel server symmetric with improved pruning"),
        2 => run(c, &tg, &lb, fw, SymmetricBiDirPotential::<_, _, false>::new(f, b), "parallel server symmetric"),
        3 => run(c, &tg, &lb, fw, AveragePotential::<_, _, true>::new(f, b), "parallel server average with improved pruning"),
        4 => run(c, &tg, &lb, fw, AveragePotential::<_, _, false>::new(f, b), "parallel server average"),
        5 => {
            // the potentials live on the original ids, the search on the reordered ones
            let lb_orig = G { n: g.n, edges: { let mut e: Vec<_> = lb.edges.iter().map(|&(a, b, w)| (topo.order.node(a), topo.order.node(b), w)).collect(); e.sort_by_key(|e| e.0); e } };
            let graph = lb_orig.owned();
            let ord = order(c, &lb_orig);
            let cch = CCH::fix_order_and_build(&graph, ord);
            let data = CCHPotData::new(&cch, &graph);
            let p = SymmetricBiDirPotential::<_, _, true>::new(data.forward_potential(), data.backward_potential());
            run(c, &tg, &lb, fw, PotentialForPermutated { order: topo.order.clone(), potential: p }, "parallel server permutated symmetric")
        }
        _ => {
            run(c, &tg, &lb, fw, SymmetricBiDirPotential::<_, _, true>::new(RecyclingPotential::new(f), RecyclingPotential::new(b)), "parallel server symmetric recycling")
        }
    }
}
