//! Dijkstra servers: exact distances, valid paths, independent of the query history.

use crate::gen::*;
use crate::pbt::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server as BiDir;
use rust_road_router::algo::dijkstra::query::dijkstra::Server;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

pub static PROP: Property = Property {
    id: "C01",
    rule: "the generated graph has at least one s-t pair with s!=t and a finite distance, and at least one query of the history is such a pair",
    subs: &[
        Sub { name: "uni", f: uni, quick: 1_500_000, thorough: 50_000_000, big: false },
        Sub { name: "uni_big", f: uni, quick: 60_000, thorough: 2_000_000, big: true },
        Sub { name: "bidir", f: bidir, quick: 1_500_000, thorough: 50_000_000, big: false },
        Sub { name: "bidir_big", f: bidir, quick: 60_000, thorough: 2_000_000, big: true },
    ],
};

fn cfg(c: &Case) -> Cfg {
    Cfg { inf: true, max_n: if c.big { 120 } else { 12 }, ..CFG }
}

fn uni(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    c.note(|| g.desc());
    let graph = g.owned();
    let mut s1 = Server::<OwnedGraph, DefaultOps, ZeroPotential, _>::new(graph.clone());
    let mut s2 = Server::<OwnedGraph, DefaultOpsByEdgeId, ZeroPotential, _>::new(graph.clone());
    let mut s3 = Server::<OwnedGraph, DefaultOpsWithLinkPath, ZeroPotential, _>::new(graph.clone());
    let q = c.size(1, 6);
    for _ in 0..q {
        let s = c.u32(0, g.n as u32 - 1);
        let t = c.u32(0, g.n as u32 - 1);
        let d = g.dists(s);
        let dt = d[t as usize];
        if s != t && dt != INF {
            c.nontrivial();
        }
        match c.weighted(&[3, 2, 3, 1, 1]) {
            0 => {
                c.note(|| format!("query {}->{}", s, t));
                let mut r = s1.query(Query { from: s, to: t });
                ensure_eq!(r.distance(), w(dt), "Dijkstra distance {}->{}", s, t);
                match r.node_path() {
                    Some(p) => check_node_path(&g, &p, s, t, dt, "Dijkstra")?,
                    None => ensure!(dt == INF, "Dijkstra {}->{}: no path although connected", s, t),
                }
            }
            1 => {
                c.note(|| format!("query by edge id {}->{}", s, t));
                let mut r = s2.query(Query { from: s, to: t });
                ensure_eq!(r.distance(), w(dt), "Dijkstra(edge ids) distance {}->{}", s, t);
                if let Some(p) = r.node_path() {
                    check_node_path(&g, &p, s, t, dt, "Dijkstra(edge ids)")?;
                }
            }
            2 => {
                c.note(|| format!("query with link path {}->{}", s, t));
                let mut r = s3.query(Query { from: s, to: t });
                ensure_eq!(r.distance(), w(dt), "Dijkstra(link path) distance {}->{}", s, t);
                if let Some(p) = r.node_path() {
                    check_node_path(&g, &p, s, t, dt, "Dijkstra(link path)")?;
                    let e: Vec<EdgeId> = r.edge_path().unwrap().into_iter().map(|EdgeIdT(e)| e).collect();
                    check_edge_path(&g, &e, s, t, dt, "Dijkstra(link path)")?;
                    ensure_eq!(e.len() + 1, p.len(), "edge and node path lengths");
                    for (i, &e) in e.iter().enumerate() {
                        ensure_eq!((p[i], p[i + 1]), (g.edges[e as usize].0, g.edges[e as usize].1), "edge path and node path disagree");
                    }
                }
            }
            3 => {
                c.note(|| format!("one_to_all {}", s));
                c.label("one_to_all");
                let r = s1.one_to_all(s);
                for v in 0..g.n {
                    let got = r.distance(v as u32);
                    ensure_eq!(got, w(d[v]).unwrap_or(INFINITY), "one_to_all({}) distance of {}", s, v);
                    if d[v] != INF && v as u32 != s {
                        let p = r.predecessor(v as u32);
                        ensure!((p as usize) < g.n, "one_to_all({}): predecessor of {} is {}", s, v, p);
                        let a = g.min_arc(p, v as u32);
                        ensure!(
                            a.map_or(false, |a| d[p as usize] != INF && d[p as usize] + a as u64 == d[v]),
                            "one_to_all({}): predecessor of {} is {}, not on a shortest path",
                            s,
                            v,
                            p
                        );
                    }
                }
            }
            _ => {
                c.note(|| format!("ranks {}", s));
                c.label("ranks");
                let mut out = Vec::new();
                s1.ranks(s, |node, dist, rank| out.push((node, dist, rank)));
                let mut reach: Vec<u64> = d.iter().copied().filter(|&x| x != INF).collect();
                reach.sort_unstable();
                let expected_ranks = (0..64).take_while(|&r| (1usize << r) <= reach.len()).count();
                ensure_eq!(out.len(), expected_ranks, "ranks({}): number of ranks of {} reachable nodes", s, reach.len());
                for (i, &(node, dist, rank)) in out.iter().enumerate() {
                    ensure_eq!(rank, i, "ranks({})", s);
                    ensure_eq!(dist as u64, d[node as usize], "ranks({}) distance of {}", s, node);
                    ensure_eq!(dist as u64, reach[(1usize << rank) - 1], "ranks({}): distance of the 2^{}-th settled node", s, rank);
                }
            }
        }
    }
    if g.edges.iter().any(|e| e.2 >= INFINITY) {
        c.label("closed_arcs");
    }
    if g.edges.iter().any(|e| e.2 == 0) {
        c.label("zero_weights");
    }
    Ok(())
}

fn bidir_queries<D: BidirChooseDir>(c: &mut Case, g: &G) -> Result<(), String> {
    let graph = g.owned();
    let mut srv = BiDir::<OwnedGraph, OwnedGraph, BiDirZeroPot, D>::new(graph);
    let q = c.size(1, 6);
    for _ in 0..q {
        let s = c.u32(0, g.n as u32 - 1);
        let t = c.u32(0, g.n as u32 - 1);
        let dt = g.dists(s)[t as usize];
        if s != t && dt != INF {
            c.nontrivial();
        }
        if c.chance(1, 4) {
            let cap = if dt != INF && c.coin() { (dt as u32).saturating_add(c.u32(0, 4)).saturating_sub(2) } else { c.u32(0, 40) };
            c.note(|| format!("capped query {}->{} cap {}", s, t, cap));
            c.label("capped");
            let r = srv.distance_with_cap(s, t, cap, |_, _, _| ());
            if dt != INF && dt < cap as u64 {
                ensure_eq!(r, w(dt), "bidirectional distance {}->{} with cap {}", s, t, cap);
            } else if let Some(r) = r {
                ensure!(dt != INF && r as u64 >= dt, "bidirectional distance {}->{} with cap {}: {} is below the distance {:?}", s, t, cap, r, w(dt));
            }
        } else {
            c.note(|| format!("query {}->{}", s, t));
            let mut r = srv.query(Query { from: s, to: t });
            ensure_eq!(r.distance(), w(dt), "bidirectional distance {}->{}", s, t);
            match r.node_path() {
                Some(p) => check_node_path(g, &p, s, t, dt, "bidirectional")?,
                None => ensure!(dt == INF, "bidirectional {}->{}: no path although connected", s, t),
            }
        }
    }
    Ok(())
}

fn bidir(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    c.note(|| g.desc());
    if c.coin() {
        bidir_queries::<AlternatingDirs>(c, &g)
    } else {
        bidir_queries::<ChooseMinKeyDir>(c, &g)
    }
}
