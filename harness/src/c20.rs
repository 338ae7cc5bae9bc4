//! Graph transformations, lookups by edge id, turn expansion and export.

use crate::c17::Scratch;
use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::dijkstra::query::dijkstra::Server as DijkServer;
use rust_road_router::algo::dijkstra::DefaultOps;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::graph::first_out_graph::degrees_to_first_out;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::export::*;
use rust_road_router::util::in_range_option::InRangeOption;
use rust_road_router::util::*;

pub static PROP: Property = Property {
    id: "C20",
    rule: "the graph has at least two arcs (or the nested slices at least two elements)",
    subs: &[
        Sub { name: "transform", f: transform, quick: 300_000, thorough: 8_000_000, big: false },
        Sub { name: "lookup", f: lookup, quick: 200_000, thorough: 4_000_000, big: false },
        Sub { name: "turns", f: turns, quick: 40_000, thorough: 3_000_000, big: false },
        Sub { name: "time_dependent", f: time_dependent, quick: 30_000, thorough: 2_000_000, big: false },
        Sub { name: "export", f: export, quick: 20_000, thorough: 1_000_000, big: false },
        Sub { name: "slices", f: slices, quick: 200_000, thorough: 4_000_000, big: false },
    ],
};

type Arcs = Vec<(u32, u32, u32)>;

fn arcs<X: LinkIterable<Link>>(g: &X) -> Arcs {
    let mut r = Vec::new();
    for v in 0..g.num_nodes() as u32 {
        for Link { node, weight } in g.link_iter(v) {
            r.push((v, node, weight));
        }
    }
    r
}

fn sorted(mut a: Arcs) -> Arcs {
    a.sort_unstable();
    a
}

/// The arrays themselves, not only what the iterators tell.
fn of_arrays(n: usize, first_out: &[u32], head: &[u32], weight: &[u32]) -> Result<Arcs, String> {
    ensure_eq!(first_out.len(), n + 1, "length of first_out");
    ensure_eq!(first_out[0], 0, "start of first_out");
    ensure!(first_out.windows(2).all(|w| w[0] <= w[1]), "first_out {:?} is not monotone", first_out);
    ensure_eq!(*first_out.last().unwrap() as usize, head.len(), "end of first_out");
    ensure_eq!(head.len(), weight.len(), "number of heads and weights");
    let mut r = Vec::new();
    for v in 0..n {
        for e in first_out[v] as usize..first_out[v + 1] as usize {
            ensure!((head[e] as usize) < n, "head {} of {} nodes", head[e], n);
            r.push((v as u32, head[e], weight[e]));
        }
    }
    Ok(r)
}

fn graph_arcs(g: &OwnedGraph, n: usize) -> Result<Arcs, String> {
    let a = of_arrays(n, g.first_out(), g.head(), g.weight())?;
    ensure_eq!(arcs(g), a, "iterating over the links");
    ensure_eq!(g.num_arcs(), a.len(), "number of arcs");
    ensure_eq!(g.num_nodes(), n, "number of nodes");
    for v in 0..n as u32 {
        ensure_eq!(g.degree(v), a.iter().filter(|x| x.0 == v).count(), "degree of {}", v);
    }
    Ok(a)
}

fn without(a: &Arcs) -> Vec<(u32, u32)> {
    a.iter().map(|&(a, b, _)| (a, b)).collect()
}

fn some_order(c: &mut Case, n: usize) -> NodeOrder {
    let p = c.permutation(n);
    let o = if c.coin() { NodeOrder::from_node_order(p) } else { NodeOrder::from_ranks(p) };
    o
}

fn transform(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { inf: true, max_n: 45, ..CFG });
    c.note(|| g.desc());
    if g.m() > 1 {
        c.nontrivial();
    }
    let n = g.n;
    let graph = g.owned();
    let all = g.edges.clone();
    ensure_eq!(graph_arcs(&graph, n)?, all, "graph");

    // reversal
    let back: Arcs = sorted(all.iter().map(|&(a, b, w)| (b, a, w)).collect());
    let rev = OwnedGraph::reversed(&graph);
    ensure_eq!(sorted(graph_arcs(&rev, n)?), back, "reversed graph");
    ensure_eq!(sorted(graph_arcs(&OwnedGraph::reversed(&rev), n)?), sorted(all.clone()), "graph reversed twice");
    ensure_eq!(sorted(graph_arcs(&OwnedGraph::reversed(&graph.borrowed()), n)?), back, "reversed borrowed graph");
    let unweighted = UnweightedOwnedGraph::new(g.first_out(), g.head());
    let rev = if c.coin() { UnweightedOwnedGraph::reversed(&graph) } else { UnweightedOwnedGraph::reversed(&unweighted) };
    let got = of_arrays(n, rev.first_out(), rev.head(), &vec![0; rev.head().len()])?;
    let mut got: Vec<_> = without(&got);
    got.sort_unstable();
    ensure_eq!(got, { let mut b = without(&back); b.sort_unstable(); b }, "reversed topology");
    let rev = if c.coin() { ReversedGraphWithEdgeIds::reversed(&graph) } else { ReversedGraphWithEdgeIds::reversed(&unweighted) };
    ensure_eq!(rev.num_nodes(), n, "nodes of reversed graph with edge ids");
    ensure_eq!(rev.num_arcs(), g.m(), "arcs of reversed graph with edge ids");
    let mut seen = vec![false; g.m()];
    for v in 0..n as u32 {
        let links: Vec<_> = rev.link_iter(v).collect();
        ensure_eq!(rev.degree(v), links.len(), "degree in reversed graph with edge ids");
        for (NodeIdT(t), Reversed(EdgeIdT(e))) in links {
            ensure!(!std::mem::replace(&mut seen[e as usize], true), "edge {} appears twice in the reversed graph", e);
            ensure_eq!((t, v), (all[e as usize].0, all[e as usize].1), "end points of the reversed edge {}", e);
        }
    }

    // open arcs
    let open: Arcs = all.iter().copied().filter(|e| e.2 < INFINITY).collect();
    let filtered = InfinityFilteringGraph(graph.clone());
    ensure_eq!(arcs(&filtered), open, "open arcs");
    let heads: Vec<(u32, u32)> = (0..n as u32).flat_map(|v| LinkIterable::<NodeIdT>::link_iter(&filtered, v).map(move |NodeIdT(h)| (v, h)).collect::<Vec<_>>()).collect();
    ensure_eq!(heads, without(&open), "open arcs (heads)");
    let rev = OwnedGraph::reversed(&filtered);
    ensure_eq!(sorted(graph_arcs(&rev, n)?), sorted(open.iter().map(|&(a, b, w)| (b, a, w)).collect()), "reversed graph of open arcs");
    let rev = UnweightedOwnedGraph::reversed(&filtered);
    let got = of_arrays(n, rev.first_out(), rev.head(), &vec![0; rev.head().len()])?;
    ensure_eq!(sorted(got), sorted(open.iter().map(|&(a, b, _)| (b, a, 0)).collect()), "reversed topology of open arcs");

    // permutation
    let ord = some_order(c, n);
    for v in 0..n as u32 {
        ensure_eq!(ord.rank(ord.node(v)), v, "order");
        ensure_eq!((ord.order()[v as usize], ord.ranks()[v as usize]), (ord.node(v), ord.rank(v)), "order");
    }
    c.note(|| format!("order {:?}", ord.order()));
    let renamed = |x: &Arcs| -> Arcs { x.iter().map(|&(a, b, w)| (ord.rank(a), ord.rank(b), w)).collect() };
    let perm = OwnedGraph::permutated(&graph, &ord);
    let got = graph_arcs(&perm, n)?;
    ensure_eq!(sorted(got.clone()), sorted(renamed(&all)), "permutated graph");
    ensure!(without(&got).windows(2).all(|w| w[0] <= w[1]), "heads of the permutated graph {:?} are not sorted", got);
    let perm = OwnedGraph::permutated(&filtered, &ord);
    ensure_eq!(sorted(graph_arcs(&perm, n)?), sorted(renamed(&open)), "permutated graph of open arcs");
    let rule = c.draw(3);
    let keep = move |a: u32, b: u32| match rule {
        0 => a < b,
        1 => a > b,
        2 => (a + 2 * b) % 3 != 0,
        _ => a != b,
    };
    let perm = OwnedGraph::permutated_filtered(&graph, &ord, Box::new(keep));
    let want: Arcs = renamed(&all).into_iter().filter(|&(a, b, _)| keep(a, b)).collect();
    ensure_eq!(sorted(graph_arcs(&perm, n)?), sorted(want), "permutated graph, filter {}", rule);

    // up and down
    let (up, down) = graph.ch_split(&ord);
    let want_up: Arcs = all.iter().copied().filter(|e| ord.rank(e.0) < ord.rank(e.1)).collect();
    let want_down: Arcs = all.iter().filter(|e| ord.rank(e.0) >= ord.rank(e.1)).map(|&(a, b, w)| (b, a, w)).collect();
    ensure_eq!(sorted(graph_arcs(&up, n)?), sorted(want_up), "upward graph");
    ensure_eq!(sorted(graph_arcs(&down, n)?), sorted(want_down), "downward graph");

    // from lists
    let lists: Vec<Vec<Link>> = (0..n as u32).map(|v| all.iter().filter(|e| e.0 == v).map(|e| Link { node: e.1, weight: e.2 }).collect()).collect();
    ensure_eq!(graph_arcs(&OwnedGraph::from_adjancecy_lists(lists.clone()), n)?, all, "graph from lists");
    let l = UnweightedOwnedGraph::from_adjancecy_lists(lists.iter().map(|l| l.iter().map(|x| x.node).collect()).collect());
    ensure_eq!((l.first_out(), l.head()), (graph.first_out(), graph.head()), "topology from lists");
    let first_out: Vec<u32> = degrees_to_first_out(lists.iter().map(|l| l.len() as u32)).collect();
    ensure_eq!(first_out, g.first_out(), "first_out from degrees");

    // parallel arcs
    let mut unified = graph.clone();
    unify_parallel_edges(&mut unified);
    let want: Arcs = all.iter().map(|&(a, b, _)| (a, b, all.iter().filter(|e| e.0 == a && e.1 == b).map(|e| e.2).min().unwrap())).collect();
    ensure_eq!(graph_arcs(&unified, n)?, want, "unified parallel arcs");

    // weights
    let mut other: Vec<u32> = (0..g.m()).map(|_| c.u32(0, 100)).collect();
    let w = other.clone();
    let mut swapped = graph.clone();
    swapped.swap_weights(&mut other);
    ensure_eq!((swapped.weight(), &other[..]), (&w[..], graph.weight()), "swapped weights");
    ensure_eq!(graph_arcs(&swapped, n)?, g.with_weights(&w).edges, "graph with swapped weights");
    ensure_eq!(swapped.decompose(), (g.first_out(), g.head(), w), "decomposed graph");
    Ok(())
}

/// Many nodes without outgoing arcs.
fn gappy(c: &mut Case) -> G {
    let mut g = graph(c, &Cfg { max_n: 120, ..CFG });
    if c.coin() {
        let shift = c.size(0, 5) as u32;
        let k = c.size(1, 4) as u32;
        for e in g.edges.iter_mut() {
            e.0 = e.0 * k + shift;
            e.1 = e.1 * k + shift;
        }
        g.n = g.n * k as usize + shift as usize + c.size(0, 3);
    }
    g
}

fn check_lookup<X: EdgeIdGraph>(c: &mut Case, x: &X, g: &G, what: &str, link: impl Fn(&X, u32) -> u32) -> Result<(), String> {
    let n = g.n as u32;
    ensure_eq!((x.num_nodes(), x.num_arcs()), (g.n, g.m()), "{}: size", what);
    let mut next = 0;
    for v in 0..n {
        let r = x.neighbor_edge_indices(v);
        ensure_eq!(r.start, next, "{}: first edge of {}", what, v);
        ensure_eq!(x.neighbor_edge_indices_usize(v), r.start as usize..r.end as usize, "{}: edge range of {}", what, v);
        ensure_eq!(x.degree(v), r.len(), "{}: degree of {}", what, v);
        next = r.end;
        for e in r {
            ensure_eq!((g.edges[e as usize].0, g.edges[e as usize].1), (v, link(x, e)), "{}: end points of edge {}", what, e);
        }
    }
    ensure_eq!(next as usize, g.m(), "{}: edges of all nodes", what);
    for _ in 0..20 {
        let (a, b) = if g.m() > 0 && c.coin() {
            let e = *c.pick(&g.edges);
            (e.0, e.1)
        } else {
            (c.u32(0, n - 1), c.u32(0, n - 1))
        };
        let got: Vec<u32> = x.edge_indices(a, b).map(|e| e.0).collect();
        let want: Vec<u32> = (0..g.m()).filter(|&e| (g.edges[e].0, g.edges[e].1) == (a, b)).map(|e| e as u32).collect();
        ensure_eq!({ let mut s = got.clone(); s.sort_unstable(); s }, want, "{}: edges from {} to {}", what, a, b);
    }
    Ok(())
}

fn lookup(c: &mut Case) -> Result<(), String> {
    let g = gappy(c);
    c.note(|| g.desc());
    if g.m() > 1 {
        c.nontrivial();
    }
    let graph = g.owned();
    check_lookup(c, &graph, &g, "graph", |x, e| x.link(e).node)?;
    for e in 0..g.m() {
        ensure_eq!(graph.link(e as u32).weight, g.edges[e].2, "weight of edge {}", e);
    }
    let unweighted = UnweightedOwnedGraph::new(g.first_out(), g.head());
    check_lookup(c, &unweighted, &g, "topology", |x, e| x.link(e).0)?;
    let tails = LinkIdToTailMapper::new(&graph);
    for e in 0..g.m() {
        ensure_eq!(tails.link_id_to_tail(e as u32), g.edges[e].0, "tail of edge {} by mapper", e);
        ensure_eq!(link_id_to_tail(graph.first_out(), e as u32), g.edges[e].0, "tail of edge {} by search", e);
    }
    // iterators with ids
    for v in 0..g.n as u32 {
        let want: Vec<_> = (0..g.m()).filter(|&e| g.edges[e].0 == v).collect();
        let a: Vec<_> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&graph, v).map(|(h, e)| (h.0, e.0)).collect();
        let b: Vec<_> = LinkIterable::<(NodeIdT, u32, EdgeIdT)>::link_iter(&graph, v).map(|(h, w, e)| (h.0, w, e.0)).collect();
        let d: Vec<_> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&unweighted, v).map(|(h, e)| (h.0, e.0)).collect();
        ensure_eq!(a, want.iter().map(|&e| (g.edges[e].1, e as u32)).collect::<Vec<_>>(), "links with ids");
        ensure_eq!(d, a, "links with ids of the topology");
        ensure_eq!(b, want.iter().map(|&e| (g.edges[e].1, g.edges[e].2, e as u32)).collect::<Vec<_>>(), "links with weights and ids");
    }
    Ok(())
}

/// Costs for pairs of consecutive edges, None: forbidden
fn turn_table(c: &mut Case, g: &G) -> std::collections::BTreeMap<(u32, u32), Option<u32>> {
    let forbid = *c.pick(&[0u64, 1, 4]);
    let hi = *c.pick(&[0u32, 3, 1000]);
    let mut t = std::collections::BTreeMap::new();
    for (i, a) in g.edges.iter().enumerate() {
        for (j, b) in g.edges.iter().enumerate() {
            if a.1 == b.0 {
                let cost = if forbid > 0 && c.chance(forbid, 8) { None } else { Some(c.u32(0, hi)) };
                t.insert((i as u32, j as u32), cost);
            }
        }
    }
    t
}

fn turns(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { max_n: 9, inf: true, ..CFG });
    let m = g.m();
    let table = turn_table(c, &g);
    c.note(|| format!("{} turns {:?}", g.desc(), table));
    if m > 1 && table.values().any(|x| x.is_some()) {
        c.nontrivial();
    }
    let mut asked = Vec::new();
    let line = line_graph(&g.owned(), |a, b| {
        asked.push((a, b));
        table.get(&(a, b)).copied().expect("asked for a turn between edges that do not follow each other")
    });
    asked.sort_unstable();
    ensure_eq!(asked, table.keys().copied().collect::<Vec<_>>(), "turns asked for");
    let want: Arcs = table.iter().filter_map(|(&(a, b), &x)| x.map(|x| (a, b, g.edges[a as usize].2 + x))).collect();
    if m == 0 {
        ensure_eq!(line.num_nodes(), 0, "nodes of the line graph of an empty graph");
        return Ok(());
    }
    ensure_eq!(sorted(graph_arcs(&line, m)?), sorted(want), "line graph");

    // routes between edges: enumerate by relaxing over edge sequences
    let mut server = DijkServer::<_, DefaultOps, _, _>::new(line);
    for _ in 0..4 {
        let s = c.u32(0, m as u32 - 1);
        // cost until the start of each edge, having driven s from its start
        let mut d = vec![INF; m];
        d[s as usize] = 0;
        loop {
            let mut changed = false;
            for (&(a, b), &x) in &table {
                let w = g.edges[a as usize].2;
                if let (Some(x), true) = (x, d[a as usize] != INF && w < INFINITY) {
                    let nd = d[a as usize] + w as u64 + x as u64;
                    if nd < d[b as usize] {
                        d[b as usize] = nd;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for t in 0..m as u32 {
            let mut r = server.query(Query { from: s, to: t });
            ensure_eq!(r.distance(), w(d[t as usize]), "from edge {} to edge {}", s, t);
            if let Some(path) = r.node_path() {
                let mut sum = 0;
                ensure_eq!((path[0], *path.last().unwrap()), (s, t), "ends of the route {:?}", path);
                for p in path.windows(2) {
                    let x = table.get(&(p[0], p[1])).copied().flatten();
                    ensure!(x.is_some(), "route {:?} contains a forbidden turn {:?}", path, p);
                    sum += g.edges[p[0] as usize].2 as u64 + x.unwrap() as u64;
                }
                ensure_eq!(sum, d[t as usize], "length of the route {:?}", path);
            }
        }
    }
    Ok(())
}

fn td_equal(c: &mut Case, what: &str, n: usize, want: &[(u32, u32)], first_out: &[u32], head: &[u32], mut same: impl FnMut(&mut Case, usize, usize) -> bool) -> Result<(), String> {
    // want: sorted by tail; compare as multisets per pair of end points
    let got = without(&of_arrays(n, first_out, head, &vec![0; head.len()])?);
    let mut a = got.clone();
    a.sort_unstable();
    let mut b = want.to_vec();
    b.sort_unstable();
    ensure_eq!(a, b, "{}: arcs", what);
    let mut used = vec![false; want.len()];
    for (i, x) in got.iter().enumerate() {
        let j = (0..want.len()).find(|&j| !used[j] && want[j] == *x && same(c, i, j));
        ensure!(j.is_some(), "{}: arc {} {:?} has a function of none of the original arcs", what, i, x);
        used[j.unwrap()] = true;
    }
    Ok(())
}

fn time_dependent(c: &mut Case) -> Result<(), String> {
    let g = td_graph(c, &Cfg { max_n: 8, ..CFG }, 4, 7_200_000);
    if g.edges.len() > 1 {
        c.nontrivial();
    }
    let n = g.n;
    let m = g.edges.len();
    let td = g.td();
    let soon = c.u32(0, P - 1);
    let some_live = |c: &mut Case| if c.coin() { Some(if c.chance(1, 6) { INFINITY } else { c.u32(0, 7_200_000) }) } else { None };
    let live: Vec<Option<u32>> = (0..m).map(|_| some_live(c)).collect();
    let pess: Vec<Option<(u32, u32)>> = (0..m).map(|_| some_live(c).map(|w| (w, soon + c.u32(0, 3_600_000)))).collect();
    let simple = LiveTDGraph::new(g.td(), soon, live.iter().map(|&x| InRangeOption::new(x)).collect());
    let pessimistic = PessimisticLiveTDGraph::new(g.td(), pess.iter().map(|x| match x { Some(p) => InRangeOption::some(*p), None => InRangeOption::NONE }).collect());
    c.note(|| format!("{} live {:?} until {}, {:?}", g.desc(), live, soon, pess));
    let gs = g.lower();
    check_lookup(c, &td, &gs, "time-dependent graph", |x, e| x.link(e).0)?;
    let raws: Vec<&Raw> = g.edges.iter().map(|e| &e.2).collect();
    let mut times: Vec<u32> = if m > 0 { (0..6).map(|_| instant(c, &raws)).collect() } else { vec![] };
    times.extend([soon.saturating_sub(1), soon, soon + 1, soon + 1_000_000]);
    times.extend(g.edges.iter().flat_map(|e| e.2.iter().map(|p| p.0)));
    let fun = |x: &TDGraph, e: usize| -> Vec<u32> { times.iter().map(|&t| x.travel_time_function(e as u32).eval(t)).collect() };
    let funl = |x: &LiveTDGraph, e: usize| -> Vec<u32> { times.iter().map(|&t| x.eval(e as u32, t)).collect() };
    let funp = |x: &PessimisticLiveTDGraph, e: usize| -> Vec<u32> { times.iter().map(|&t| x.eval(e as u32, t)).collect() };

    if c.coin() {
        c.label("permutated");
        let ord = some_order(c, n);
        let rule = c.draw(3);
        let keep = move |a: u32, b: u32| match rule {
            0 => a < b,
            1 => a > b,
            2 => (a + 2 * b) % 3 != 0,
            _ => true,
        };
        c.note(|| format!("order {:?} filter {}", ord.order(), rule));
        let kept: Vec<usize> = (0..m).filter(|&e| keep(ord.rank(g.edges[e].0), ord.rank(g.edges[e].1))).collect();
        let want: Vec<(u32, u32)> = kept.iter().map(|&e| (ord.rank(g.edges[e].0), ord.rank(g.edges[e].1))).collect();
        let all = rule == 3 && c.coin();
        let x = if all { TDGraph::permutated(&td, &ord) } else { TDGraph::permutated_filtered(&td, &ord, Box::new(keep)) };
        td_equal(c, "permutated", n, &want, x.first_out(), x.head(), |_, i, j| fun(&x, i) == fun(&td, kept[j]))?;
        let x = if all { LiveTDGraph::permutated(&simple, &ord) } else { LiveTDGraph::permutated_filtered(&simple, &ord, Box::new(keep)) };
        let y = x.graph();
        td_equal(c, "permutated live", n, &want, y.first_out(), y.head(), |_, i, j| funl(&x, i) == funl(&simple, kept[j]) && fun(y, i) == fun(&td, kept[j]))?;
        let x = if all { PessimisticLiveTDGraph::permutated(&pessimistic, &ord) } else { PessimisticLiveTDGraph::permutated_filtered(&pessimistic, &ord, Box::new(keep)) };
        let y = x.graph();
        td_equal(c, "permutated pessimistic live", n, &want, y.first_out(), y.head(), |_, i, j| {
            funp(&x, i) == funp(&pessimistic, kept[j]) && fun(y, i) == fun(&td, kept[j])
        })?;
    } else {
        c.label("turns");
        let table = turn_table(c, &gs);
        c.note(|| format!("turns {:?}", table));
        let want: Vec<((u32, u32), u32)> = table.iter().filter_map(|(&k, &x)| x.map(|x| (k, x))).collect();
        let ends: Vec<(u32, u32)> = want.iter().map(|x| x.0).collect();
        let cost = |a, b| table.get(&(a, b)).copied().expect("asked for a turn between edges that do not follow each other");
        let plus = |v: Vec<u32>, j: usize| -> Vec<u32> { v.iter().map(|x| x + want[j].1).collect() };
        let of = |j: usize| want[j].0 .0 as usize;
        let x = td.line_graph(cost);
        td_equal(c, "line graph", m, &ends, x.first_out(), x.head(), |_, i, j| fun(&x, i) == plus(fun(&td, of(j)), j))?;
        let x = simple.line_graph(cost);
        let y = x.graph();
        td_equal(c, "line graph live", m, &ends, y.first_out(), y.head(), |_, i, j| {
            funl(&x, i) == plus(funl(&simple, of(j)), j) && fun(y, i) == plus(fun(&td, of(j)), j)
        })?;
        let x = pessimistic.line_graph(cost);
        let y = x.graph();
        td_equal(c, "line graph pessimistic live", m, &ends, y.first_out(), y.head(), |_, i, j| {
            funp(&x, i) == plus(funp(&pessimistic, of(j)), j) && fun(y, i) == plus(fun(&td, of(j)), j)
        })?;
    }

    // constant graphs
    let mut low = g.td();
    low.to_constant_lower();
    let mut plow = pessimistic.clone();
    plow.to_constant_lower();
    for e in 0..m {
        let lo = g.edges[e].2.iter().map(|p| p.1).min().unwrap();
        for &t in &times {
            ensure_eq!(low.travel_time_function(e as u32).eval(t), lo, "constant lower bound of edge {} at {}", e, t);
            ensure_eq!(plow.graph().travel_time_function(e as u32).eval(t), lo, "constant lower bound of live edge {} at {}", e, t);
        }
    }
    let mut pos = g.td();
    pos.fix_zero_travel_times();
    for (e, edge) in g.edges.iter().enumerate() {
        let f = pos.travel_time_function(e as u32);
        for &(t, v) in &edge.2 {
            // constant functions are stored as a single point at 0
            ensure_eq!(f.eval(t), v.max(1), "edge {} at {} without zero travel times", e, t);
        }
    }
    Ok(())
}

fn export(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { inf: true, ..CFG });
    c.note(|| g.desc());
    if g.m() > 1 {
        c.nontrivial();
    }
    let scratch = Scratch::new();
    let file = scratch.path("graph.gr");
    if c.coin() {
        std::fs::write(&file, vec![b'x'; c.size(0, 500)]).unwrap();
    }
    write_graph_to_gr(&g.owned(), file.to_str().unwrap()).map_err(|e| e.to_string())?;
    let text = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
    let mut lines = text.lines().filter(|l| !l.starts_with('c'));
    let words = |l: &str| l.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
    let head = words(lines.next().unwrap_or(""));
    ensure_eq!(head, vec!["p".to_string(), "sp".into(), g.n.to_string(), g.m().to_string()], "header");
    let mut arcs = Vec::new();
    for l in lines {
        let x = words(l);
        ensure!(x.len() == 4 && x[0] == "a", "line {:?}", l);
        let p: Vec<u64> = x[1..].iter().filter_map(|s| s.parse().ok()).collect();
        ensure!(p.len() == 3 && p[0] > 0 && p[1] > 0, "line {:?}", l);
        arcs.push((p[0] as u32 - 1, p[1] as u32 - 1, p[2] as u32));
    }
    ensure_eq!(sorted(arcs), sorted(g.edges.clone()), "exported arcs");

    let k = c.size(0, 6);
    let coord = |c: &mut Case, lim: i64| match c.draw(2) {
        0 => c.u32(0, 2 * lim as u32) as f32 - lim as f32,
        1 => (c.u32(0, 2_000_000 * lim as u32) as f64 / 1e6 - lim as f64) as f32,
        _ => *c.pick(&[0.0f32, -0.0, 1e-7, -1e-7, 0.5, 49.01, 8.4]),
    };
    let lat: Vec<f32> = (0..k).map(|_| coord(c, 90)).collect();
    let lng: Vec<f32> = (0..k).map(|_| coord(c, 180)).collect();
    c.note(|| format!("{:?} {:?}", lat, lng));
    let file = scratch.path("coords.co");
    write_coords_to_co(&lat, &lng, file.to_str().unwrap()).map_err(|e| e.to_string())?;
    let text = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
    let mut lines = text.lines().filter(|l| !l.starts_with('c'));
    let head = words(lines.next().unwrap_or(""));
    ensure_eq!(head, vec!["p".to_string(), "aux".into(), "sp".into(), "co".into(), k.to_string()], "header of coordinates");
    for i in 0..k {
        let l = lines.next().unwrap_or("");
        let x = words(l);
        let p: Vec<i64> = x.iter().skip(1).filter_map(|s| s.parse().ok()).collect();
        ensure!(x.len() == 4 && x[0] == "v" && p.len() == 3 && p[0] == i as i64 + 1, "line {:?} for node {}", l, i);
        for (got, want) in [(p[1], lat[i]), (p[2], lng[i])] {
            let want = want as f64 * 1e6;
            ensure!((got as f64 - want).abs() <= 1.0 + want.abs() / (1 << 22) as f64, "line {:?}: {} is not {}", l, got, want);
        }
    }
    ensure!(lines.next().is_none(), "too many coordinates");
    Ok(())
}

fn slices(c: &mut Case) -> Result<(), String> {
    let k = c.size(0, 8);
    let lists: Vec<Vec<u32>> = (0..k).map(|_| (0..c.size(0, 5)).map(|_| c.u32(0, 50)).collect()).collect();
    c.note(|| format!("{:?}", lists));
    let flat: Vec<u32> = lists.concat();
    if flat.len() > 1 && k > 1 {
        c.nontrivial();
    }
    let first: Vec<u32> = degrees_to_first_out(lists.iter().map(|l| l.len() as u32)).collect();
    let first_usize: Vec<usize> = first.iter().map(|&x| x as usize).collect();
    let vecs = Vecs::from_iters(lists.iter().map(|l| l.iter().copied()));
    ensure_eq!(vecs.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), lists, "Vecs::iter");
    {
        use rayon::iter::ParallelIterator;
        ensure_eq!(vecs.par_iter().map(|s| s.to_vec()).collect::<Vec<_>>(), lists, "Vecs::par_iter");
    }
    ensure_eq!(Vecs::<u32>::empty().iter().count(), 0, "empty Vecs");
    let mut data = flat.clone();
    let mut want = lists.clone();
    for i in 0..k {
        ensure_eq!(&vecs[i], &lists[i][..], "Vecs[{}]", i);
        ensure_eq!(&Slcs(&first, &flat)[i], &lists[i][..], "Slcs[{}]", i);
        ensure_eq!(&Slcs(&first_usize, &flat)[i], &lists[i][..], "Slcs[{}] with usize", i);
        ensure_eq!(Slcs(&first, &flat).range(i), first_usize[i]..first_usize[i + 1], "range {}", i);
        if c.coin() {
            for (x, y) in SlcsMut(&first, &mut data)[i].iter_mut().zip(want[i].iter_mut()) {
                *x += 100;
                *y += 100;
            }
        }
    }
    ensure_eq!(data, want.concat(), "SlcsMut");
    // merging iterators
    let mut a: Vec<u32> = (0..c.size(0, 7)).map(|_| c.u32(0, 9)).collect();
    let mut b: Vec<u32> = (0..c.size(0, 7)).map(|_| c.u32(0, 9)).collect();
    c.note(|| format!("{:?} {:?}", a, b));
    let mut want = Vec::new();
    for i in 0..a.len().max(b.len()) {
        want.extend(a.get(i).copied());
        want.extend(b.get(i).copied());
    }
    ensure_eq!(interleave(a.clone(), b.clone()).collect::<Vec<_>>(), want, "interleaved");
    a.sort_unstable();
    b.sort_unstable();
    a.dedup();
    b.dedup();
    let mut want = Vec::new();
    for x in 0..10 {
        let p = (a.contains(&x).then(|| x), b.contains(&x).then(|| x));
        if p != (None, None) {
            want.push(p);
        }
    }
    ensure_eq!(coordinated_sweep_iter(a.iter().copied(), b.iter().copied()).collect::<Vec<_>>(), want, "swept together");
    Ok(())
}
