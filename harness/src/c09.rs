//! One-to-many engines (RPHAST, batched RPHAST, buckets, lazy RPHAST), k-nearest neighbours, hub labels.

use crate::gen::*;
use crate::pbt::{Sub, *};
use rust_road_router::algo::a_star::Potential;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::contraction_hierarchy::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::nearest_neighbor::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::nearest_neighbor::DijkstraNearestNeighbor;
use rust_road_router::algo::hl::HubLabels;
use rust_road_router::algo::rphast::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use std::collections::HashSet;

pub static PROP: Property = Property {
    id: "C09",
    rule: "some source and some different selected target are at a finite positive distance",
    subs: &[
        Sub { name: "one_to_many", f: one_to_many, quick: 250_000, thorough: 15_000_000, big: false },
        Sub { name: "one_to_many_big", f: one_to_many, quick: 50_000, thorough: 1_000_000, big: true },
    ],
};

pub static PROP10: Property = Property {
    id: "C10",
    rule: "some query asks for fewer neighbours than there are reachable targets, which are at two different distances at least",
    subs: &[
        Sub { name: "knn", f: knn, quick: 150_000, thorough: 10_000_000, big: false },
        Sub { name: "knn_big", f: knn, quick: 60_000, thorough: 1_000_000, big: true },
    ],
};

pub static PROP11: Property = Property {
    id: "C11",
    rule: "at least two pairs of different nodes are at a finite distance",
    subs: &[
        Sub { name: "labels", f: labels, quick: 150_000, thorough: 10_000_000, big: false },
        Sub { name: "labels_big", f: labels, quick: 20_000, thorough: 400_000, big: true },
    ],
};

/// Build one of the hierarchies of the library for g and pass it on as (up, down, order).
fn with_hierarchy(c: &mut Case, g: &G, f: &mut dyn FnMut(&mut Case, BorrowedGraph, BorrowedGraph, &NodeOrder, &str) -> Result<(), String>) -> Result<(), String> {
    let graph = g.owned();
    let ord = order(c, g);
    c.note(|| format!("order {:?}", ord.order()));
    let closed = g.edges.iter().any(|e| e.2 >= INFINITY);
    match c.draw(3) {
        0 if !closed => {
            let (up, down) = overlay(&graph, ord.clone(), g.n);
            f(c, up.borrowed(), down.borrowed(), &ord, "CH")
        }
        1 => {
            let cch = CCH::fix_order_and_build(&graph, ord);
            let cust = customize(&cch, &graph);
            f(c, cust.forward_graph(), cust.backward_graph(), cch.node_order(), "CCH")
        }
        2 => {
            let cch = CCH::fix_order_and_build(&graph, ord);
            let directed = cch.to_directed_cch();
            let cust = customize_directed(&directed, &graph);
            f(c, cust.forward_graph(), cust.backward_graph(), cch.node_order(), "directed CCH")
        }
        _ => {
            let cch = CCH::fix_order_and_build(&graph, ord);
            let cust = customize_perfect(customize(&cch, &graph));
            f(c, cust.forward_graph(), cust.backward_graph(), cch.node_order(), "perfect CCH")
        }
    }
}

fn targets(c: &mut Case, n: usize, max: usize, distinct: bool) -> Vec<u32> {
    let k = c.size(0, max);
    if distinct {
        let mut p = c.permutation(n);
        p.truncate(k);
        p
    } else {
        (0..k).map(|_| c.u32(0, n as u32 - 1)).collect()
    }
}

fn cmp(what: &str, s: u32, t: u32, want: u64, got: Weight) -> Result<(), String> {
    match w(want) {
        Some(d) => ensure_eq!(got, d, "{}: distance {}->{}", what, s, t),
        None => ensure!(got >= INFINITY, "{}: distance {}->{} is {} but the target is unreachable", what, s, t, got),
    }
    Ok(())
}

fn one_to_many(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { inf: true, max_n: if c.big { 90 } else { 11 }, ..CFG };
    let g = graph(c, &cfg);
    c.note(|| g.desc());
    let d = g.all_dists();
    with_hierarchy(c, &g, &mut |c, up, down, ord, what| {
        let mut rphast = RPHAST::new(up.clone(), down.clone(), ord.clone());
        let mut scalar = RPHASTQuery::new(&rphast);
        let mut batched = SSERPHASTQuery::new(&rphast);
        let mut buckets = BucketCHPotential::new(up.clone(), down.clone(), ord.clone());
        let mut lazy = CHPotential::new(up, down, ord.clone());
        let rounds = c.size(1, 4);
        for _ in 0..rounds {
            let sel = targets(c, g.n, if c.big { g.n } else { 6 }, false);
            c.note(|| format!("{} select {:?}", what, sel));
            rphast.select(&sel);
            let queries = c.size(1, 4);
            for _ in 0..queries {
                match c.draw(3) {
                    0 => {
                        let s = c.u32(0, g.n as u32 - 1);
                        c.note(|| format!("RPHAST from {}", s));
                        let r = scalar.query(s, &rphast);
                        for &t in &sel {
                            if d[s as usize][t as usize] != INF && d[s as usize][t as usize] > 0 {
                                c.nontrivial();
                            }
                            cmp(&format!("RPHAST on {}", what), s, t, d[s as usize][t as usize], r.distance(t))?;
                        }
                    }
                    1 => {
                        let distinct = c.coin();
                        let src = targets(c, g.n, g.n.min(9) + 2 * !distinct as usize, distinct);
                        c.note(|| format!("batched RPHAST from {:?}", src));
                        let r = batched.query(&src, &rphast);
                        for &t in &sel {
                            let ds = r.distances(t);
                            ensure_eq!(ds.len(), src.len(), "batched RPHAST: number of results");
                            for (i, &s) in src.iter().enumerate() {
                                if d[s as usize][t as usize] != INF && d[s as usize][t as usize] > 0 {
                                    c.nontrivial();
                                }
                                cmp(&format!("batched RPHAST on {}", what), s, t, d[s as usize][t as usize], ds[i])?;
                            }
                        }
                    }
                    2 => {
                        let distinct = c.coin();
                        let tgt = targets(c, g.n, g.n.min(9) + 2 * !distinct as usize, distinct);
                        c.note(|| format!("bucket search to {:?}", tgt));
                        buckets.init(&tgt);
                        for _ in 0..c.size(1, 5) {
                            let s = c.u32(0, g.n as u32 - 1);
                            let p = buckets.potential(s);
                            ensure_eq!(p.len(), tgt.len(), "bucket search: number of results");
                            for (i, &t) in tgt.iter().enumerate() {
                                if d[s as usize][t as usize] != INF && d[s as usize][t as usize] > 0 {
                                    c.nontrivial();
                                }
                                cmp(&format!("bucket search on {}", what), s, t, d[s as usize][t as usize], p[i])?;
                            }
                        }
                    }
                    _ => {
                        let t = c.u32(0, g.n as u32 - 1);
                        c.note(|| format!("lazy RPHAST to {}", t));
                        lazy.init(t);
                        for &s in &sel {
                            if d[s as usize][t as usize] != INF && d[s as usize][t as usize] > 0 {
                                c.nontrivial();
                            }
                            ensure_eq!(lazy.potential(s).filter(|&p| p < INFINITY), w(d[s as usize][t as usize]), "lazy RPHAST on {}: distance {}->{}", what, s, t);
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

fn check_knn(c: &mut Case, what: &str, d: &[u64], s: u32, targets: &[u32], k: usize, mut got: Vec<(Weight, NodeId)>, sorted: bool) -> Result<(), String> {
    if sorted {
        ensure!(got.windows(2).all(|x| x[0].0 <= x[1].0), "{} from {}: {:?} is not sorted by distance", what, s, got);
    }
    let mut all: Vec<u64> = targets.iter().map(|&t| d[t as usize]).filter(|&x| x != INF).collect();
    all.sort_unstable();
    if all.len() > k && all[0] != all[all.len() - 1] {
        c.nontrivial();
    }
    ensure_eq!(got.len(), k.min(all.len()), "{} from {} for the {} nearest of {:?}: wrong number of results {:?}", what, s, k, targets, got);
    let distinct: HashSet<_> = got.iter().map(|x| x.1).collect();
    ensure_eq!(distinct.len(), got.len(), "{} from {}: target reported twice in {:?}", what, s, got);
    got.sort_unstable();
    for (i, &(dist, t)) in got.iter().enumerate() {
        ensure!(targets.contains(&t), "{} from {}: {} is no target", what, s, t);
        ensure_eq!(w(d[t as usize]), Some(dist), "{} from {}: distance of {}", what, s, t);
        ensure_eq!(dist as u64, all[i], "{} from {}: {}-th nearest neighbour of {:?}, got {:?}", what, s, i + 1, targets, got);
    }
    Ok(())
}

fn knn(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { inf: true, max_n: if c.big { 110 } else { 14 }, ..CFG };
    let g = graph(c, &cfg);
    let graph = g.owned();
    let ord = order(c, &g);
    c.note(|| format!("{} order {:?}", g.desc(), ord.order()));
    let cch = CCH::fix_order_and_build(&graph, ord);
    let data = CCHPotData::new(&cch, &graph);
    let rev = data.backward_potential();
    let mut dijkstra = DijkstraNearestNeighbor::new(graph.borrowed());
    let mut sep = SeparatorBasedNearestNeighbor::new(&cch, data.backward_potential());
    let mut lazy = LazyRphastNearestNeighbor::new(rev);
    let mut bcch = BCCHNearestNeighbor::new(data.customized());
    let rounds = c.size(1, 5);
    for _ in 0..rounds {
        let t = targets(c, g.n, g.n, true);
        let engine = c.draw(3);
        let queries = c.size(1, 4);
        let q: Vec<(u32, usize)> = (0..queries)
            .map(|_| (c.u32(0, g.n as u32 - 1), if c.coin() { c.size(1, 4) } else { c.size(1, t.len().max(1) + 2) }))
            .collect();
        c.note(|| format!("engine {} targets {:?} queries (source, k) {:?}", ["Dijkstra", "separator", "lazy RPHAST", "BCCH"][engine as usize], t, q));
        match engine {
            0 => {
                let mut x = dijkstra.select_targets(&t);
                for (s, k) in q {
                    check_knn(c, "Dijkstra", &g.dists(s), s, &t, k, x.query(s, k), true)?;
                }
            }
            1 => {
                let mut x = sep.select_targets(&t);
                for (s, k) in q {
                    check_knn(c, "separator based", &g.dists(s), s, &t, k, x.query(s, k), false)?;
                }
            }
            2 => {
                for (s, k) in q {
                    check_knn(c, "lazy RPHAST", &g.dists(s), s, &t, k, lazy.query(s, &t, k), false)?;
                }
            }
            _ => {
                let mut x = bcch.select_targets(&t);
                for (s, k) in q {
                    check_knn(c, "bucket CCH", &g.dists(s), s, &t, k, x.query(s, k), false)?;
                }
            }
        }
    }
    Ok(())
}

fn labels(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { inf: true, max_n: if c.big { 70 } else { 11 }, ..CFG };
    let g = graph(c, &cfg);
    c.note(|| g.desc());
    let d = g.all_dists();
    if d.iter().enumerate().map(|(s, r)| r.iter().enumerate().filter(|&(t, &x)| s != t && x != INF).count()).sum::<usize>() > 1 {
        c.nontrivial();
    }
    with_hierarchy(c, &g, &mut |_, up, down, ord, what| {
        let hl = HubLabels::new(&up, &down);
        let dist = |a: u32, b: u32| d[ord.node(a) as usize][ord.node(b) as usize];
        let n = g.n as u32;
        let mut num = 0;
        for (dir, ls) in [("forward", hl.forward_labels()), ("backward", hl.backward_labels())] {
            for v in 0..n {
                let l = &ls[v as usize];
                num += l.len();
                ensure!(l.windows(2).all(|x| x[0].0 < x[1].0), "{} labels on {} of rank {}: {:?} not sorted or not unique", dir, what, v, l);
                for &(hub, weight) in l {
                    ensure!(hub >= v && hub < n, "{} label on {} of rank {}: {} is no higher ranked hub", dir, what, v, hub);
                    let e = if dir == "forward" { dist(v, hub) } else { dist(hub, v) };
                    ensure_eq!(Some(weight), w(e), "{} label on {} of rank {} for hub {}", dir, what, v, hub);
                }
            }
        }
        ensure_eq!(hl.num_labels(), num, "number of labels");
        for s in 0..n {
            for t in 0..n {
                ensure_eq!(hl.dist(s, t), w(dist(s, t)), "hub label distance on {} of ranks {}->{}", what, s, t);
                if let Some((hub, x)) = hl.hub_and_dist(s, t) {
                    ensure_eq!(Some(x), w(dist(s, t)), "hub label distance on {} of ranks {}->{}", what, s, t);
                    ensure_eq!(dist(s, hub).saturating_add(dist(hub, t)), dist(s, t), "hub {} on {} of ranks {}->{}", hub, what, s, t);
                }
            }
        }
        Ok(())
    })
}
