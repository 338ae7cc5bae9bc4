//! Contraction Hierarchies: exact distances, valid unpacked paths.

use crate::gen::*;
use crate::pbt::*;
use rust_road_router::algo::contraction_hierarchy::{self, query::Server};
use rust_road_router::algo::dijkstra::query::dijkstra::Server as Dij;
use rust_road_router::algo::a_star::ZeroPotential;
use rust_road_router::algo::dijkstra::DefaultOps;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

pub static PROP: Property = Property {
    id: "C02",
    rule: "at least one query of the history connects two different nodes with a finite distance over a path of two or more arcs",
    subs: &[
        Sub { name: "ch", f: ch, quick: 1_200_000, thorough: 40_000_000, big: false },
        Sub { name: "ch_big", f: ch, quick: 40_000, thorough: 1_000_000, big: true },
        Sub { name: "overlay", f: overlay, quick: 600_000, thorough: 10_000_000, big: false },
    ],
};

fn cfg(c: &Case) -> Cfg {
    Cfg { max_n: if c.big { 90 } else { 11 }, ..CFG }
}

fn ch(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let graph = g.owned();
    let ch = contraction_hierarchy::contract(&graph, ord.clone());
    let mut srv = Server::new(ch, ord);
    let all = !c.big && c.chance(1, 3);
    let k = if all { g.n * g.n } else { c.size(1, 8) };
    for i in 0..k {
        let (s, t) = if all { ((i / g.n) as u32, (i % g.n) as u32) } else { (c.u32(0, g.n as u32 - 1), c.u32(0, g.n as u32 - 1)) };
        let d = g.dists(s)[t as usize];
        c.note(|| format!("query {}->{}", s, t));
        let mut r = srv.query(Query { from: s, to: t });
        ensure_eq!(r.distance(), w(d), "CH distance {}->{}", s, t);
        match r.node_path() {
            Some(p) => {
                check_node_path(&g, &p, s, t, d, "CH")?;
                if p.len() > 2 {
                    c.nontrivial();
                }
            }
            None => ensure!(d == INF, "CH {}->{}: no path although connected", s, t),
        }
    }
    Ok(())
}

/// Contracting only some nodes leaves an overlay on the others which preserves their distances.
fn overlay(c: &mut Case) -> Result<(), String> {
    let cfg = cfg(c);
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    let count = c.size(0, g.n);
    c.note(|| format!("{} order={:?} contracted={}", g.desc(), ord.order(), count));
    let (fw, bw) = contraction_hierarchy::overlay(&g.owned(), ord.clone(), count);
    ensure_eq!(fw.num_nodes(), g.n, "overlay nodes");
    // overlay arcs between the remaining nodes (ranks >= count)
    let mut edges = Vec::new();
    for v in count as u32..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&fw, v) {
            ensure!(l.node as usize >= count, "overlay arc {}->{} leads to a contracted node", v, l.node);
            edges.push((v, l.node, l.weight));
        }
    }
    let mut back = Vec::new();
    for v in count as u32..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&bw, v) {
            back.push((l.node, v, l.weight));
        }
    }
    let o = G { n: g.n, edges: edges.clone() };
    edges.sort_unstable();
    back.sort_unstable();
    ensure_eq!(edges, back, "forward and backward overlay differ");
    let mut srv = Dij::<OwnedGraph, DefaultOps, ZeroPotential, _>::new(o.owned());
    for s in count as u32..g.n as u32 {
        let d = g.dists(ord.node(s));
        for t in count as u32..g.n as u32 {
            let d = d[ord.node(t) as usize];
            if s != t && d != INF && count > 0 {
                c.nontrivial();
            }
            ensure_eq!(srv.query(Query { from: s, to: t }).distance(), w(d), "overlay distance of ranks {}->{}", s, t);
        }
    }
    Ok(())
}
