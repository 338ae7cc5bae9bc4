seed('C04-separator-gap','C04',[(CCHD+'separator_decomposition.rs','''                if range.start > 0 && node == range.start - 1 {
                    range.start -= 1;
                } else {''','''                if node < range.start {
                    range.start = node;
                } else {''')],
 'an order in which a chain of the elimination tree does not have consecutive ranks (nodes of another component in between)',
 'a separator claims the nodes between its own nodes, which belong to other cells',
 PRE+'''
use rust_road_router::algo::customizable_contraction_hierarchy::{*, separator_decomposition::*};
fn collect(t: &SeparatorTree, all: &mut Vec<u32>) {
    all.extend(t.nodes.iter());
    for c in &t.children { collect(c, all); }
}
fn main() {
    // two components 0 - 1 and 2 - 3
    let graph = g(4, &[(0, 1, 1), (1, 0, 1), (2, 3, 1), (3, 2, 1)]);
    let mut bad = 0;
    for order in [vec![0, 2, 1, 3], vec![0, 1, 2, 3], vec![2, 0, 1, 3], vec![0, 2, 3, 1]] {
        let cch = contract(&graph, NodeOrder::from_node_order(order.clone()));
        let mut all = Vec::new();
        collect(cch.separators(), &mut all);
        all.sort();
        if all != vec![0, 1, 2, 3] { println!("order {:?}: separators contain {:?}", order, all); bad = 1; }
    }
    std::process::exit(bad);
}
''')
seed('C08-adjacent-degree-three','C08',[('engine/src/algo/dijkstra/gen_topo_dijkstra.rs','''                    if self.ops.merge(&mut self.distances[next_node as usize], next_distance) {
                        let next_distance = &self.distances[next_node as usize];
                        let mut next_edge = None;
                        let mut endpoint = false;
                        // debug_assert!(next_distance >= distance);

                        match self.graph.symmetric_degree(next_node) {
                            SymmetricDeg::LessEqTwo => {
                                if !SKIP_DEG_2 {
                                    endpoint = true;
                                } else {
                                    for edge in LinkIterable::<Ops::Arc>::link_iter(self.graph, next_node) {
                                        if edge.head() != prev_node.0 {
                                            next_edge = Some(edge);
                                        }
                                    }
                                }
                            }
                            SymmetricDeg::Three => {
                                if !SKIP_DEG_3
                                    || had_deg_three
''','''                    if self.ops.merge(&mut self.distances[next_node as usize], next_distance) {
                        let next_distance = &self.distances[next_node as usize];
                        let mut next_edge = None;
                        let mut endpoint = false;
                        // debug_assert!(next_distance >= distance);

                        match self.graph.symmetric_degree(next_node) {
                            SymmetricDeg::LessEqTwo => {
                                if !SKIP_DEG_2 {
                                    endpoint = true;
                                } else {
                                    for edge in LinkIterable::<Ops::Arc>::link_iter(self.graph, next_node) {
                                        if edge.head() != prev_node.0 {
                                            next_edge = Some(edge);
                                        }
                                    }
                                }
                            }
                            SymmetricDeg::Three => {
                                if !SKIP_DEG_3
                                    || had_deg_three && deg_three.is_none()
''')],
 'two nodes of degree three on one chain, while the first one still has a branch to be followed',
 'the branch of the first node of degree three is forgotten, the nodes behind it are not reached on the shortest way',
 PRE+'''
use rust_road_router::algo::{a_star::*, ch_potentials::query::Server, dijkstra::DefaultOps};
fn main() {
    let mut bad = 0;
    // ladders: 0..k the upper row, k..2k the lower one
    for k in 3..8u32 {
        let mut edges = Vec::new();
        let mut both = |a: u32, b: u32, w: u32| { edges.push((a, b, w)); edges.push((b, a, w)); };
        for i in 0..k - 1 { both(i, i + 1, 3 + (i * 7) % 5); both(k + i, k + i + 1, 2 + (i * 5) % 7); }
        for i in 0..k { both(i, k + i, 1 + (i * 3) % 4); }
        let n = 2 * k as usize;
        let graph = g(n, &edges);
        let mut d = vec![vec![1_000_000u32; n]; n];
        for i in 0..n { d[i][i] = 0; }
        for &(a, b, w) in &edges { d[a as usize][b as usize] = d[a as usize][b as usize].min(w); }
        for x in 0..n { for i in 0..n { for j in 0..n { d[i][j] = d[i][j].min(d[i][x] + d[x][j]); } } }
        let mut srv = Server::<OwnedGraph, DefaultOps, _, true, true, true>::new(&graph, ZeroPotential(), DefaultOps());
        for s in 0..n as u32 { for t in 0..n as u32 {
            let got = srv.query(Query { from: s, to: t }).distance();
            if got != Some(d[s as usize][t as usize]) { println!("k={} {}->{}: {:?} instead of {}", k, s, t, got, d[s as usize][t as usize]); bad = 1; }
        } }
    }
    std::process::exit(bad);
}
''')
seed('C09-stale-batch','C09',[('engine/src/algo/rphast.rs','''        self.restricted_distances.resize(selection.restricted_nodes.len() * nodes.len(), INFINITY);
        for dist in self.restricted_distances.iter_mut() {
            *dist = INFINITY;
        }
''','''        if self.restricted_distances.len() != selection.restricted_nodes.len() * nodes.len() {
            self.restricted_distances.clear();
            self.restricted_distances.resize(selection.restricted_nodes.len() * nodes.len(), INFINITY);
        }
''')],
 'two batches of the same size on one query object',
 'distances of the previous batch of sources of the same size leak into the result',
 PRE+'''
use rust_road_router::algo::{customizable_contraction_hierarchy::*, rphast::*};
fn main() {
    // a line 0 - 1 - 2 - 3 - 4
    let mut e = Vec::new();
    for i in 0..4 { e.push((i, i + 1, 10)); e.push((i + 1, i, 10)); }
    let graph = g(5, &e);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(vec![0, 2, 4, 1, 3]));
    let cust = customize_perfect(customize(&cch, &graph));
    let mut sel = RPHAST::new(cust.forward_graph(), cust.backward_graph(), cch.node_order().clone());
    sel.select(&[0, 4]);
    let mut q = SSERPHASTQuery::new(&sel);
    let mut bad = 0;
    for s in [[0u32, 1], [4, 3], [2, 0], [3, 2]] {
        let r = q.query(&s, &sel);
        for t in [0u32, 4] {
            for i in 0..2 {
                let want = (s[i] as i32 - t as i32).abs() as u32 * 10;
                if r.distances(t)[i] != want { println!("{:?} -> {}: {:?}", s, t, r.distances(t)); bad = 1; }
            }
        }
    }
    std::process::exit(bad);
}
''')
seed('C13-recycled-departure','C13',[('engine/src/algo/td_astar.rs','''        if self.query != Some((source, target, departure)) {''','''        if self.query.map(|(s, t, _)| (s, t)) != Some((source, target)) {''')],
 'the same pair of nodes queried again with another departure time',
 'the potential for the previous departure is kept although it depends on the departure time, so it is no lower bound anymore',
 PRE+'''
use rust_road_router::algo::td_astar::*;
struct P(u32);
impl TDPotential for P {
    fn init(&mut self, _: NodeId, _: NodeId, departure: u32) { self.0 = departure; }
    fn potential(&mut self, _: NodeId, _: Option<u32>) -> Option<Weight> { Some(self.0 % 7) }
}
fn main() {
    let mut p = TDRecyclingPotential::new(P(0));
    let mut bad = 0;
    for (s, t, d) in [(0, 1, 3), (0, 1, 3), (0, 1, 5), (1, 0, 5), (1, 0, 6)] {
        p.init(s, t, d);
        let got = p.potential(0, None);
        if got != Some(d % 7) { println!("{}->{} at {}: {:?}", s, t, d, got); bad = 1; }
    }
    std::process::exit(bad);
}
''')
seed('C23-geometry-order','C23',[('conversion/src/here/mod.rs',"""        geometries.sort_by_key(|geometry| geometry.seq_num);""","""        geometries.dedup_by_key(|geometry| geometry.seq_num);""")],
 'geometry points of a link which are not listed in the order of their sequence numbers',
 'the length of the link zigzags between its points in the order of the file',
 PRE+"""
use conversion::here::{*, csv_source::*};
fn main() {
    let dir = std::env::temp_dir().join(format!("c23-demo-{}", std::process::id()));
    let points = vec![(0, 1000000, 1000000), (1, 1000000, 2000000), (2, 1000000, 3000000), (3, 1000000, 4000000)];
    let mut results = Vec::new();
    for order in [[0, 1, 2, 3], [0, 2, 1, 3], [3, 2, 1, 0], [1, 0, 3, 2]] {
        let _ = std::fs::remove_dir_all(&dir);
        let write = |name: &str, lines: Vec<String>| {
            std::fs::create_dir_all(dir.join(name)).unwrap();
            std::fs::write(dir.join(name).join(format!("{}.txt", name)), lines.into_iter().map(|l| l + "\\n").collect::<String>()).unwrap();
        };
        write("rdf_node", vec!["1\\t10000\\t10000\\t0".into(), "2\\t10000\\t40000\\t0".into()]);
        write("rdf_link", vec!["7\\t1\\t2".into()]);
        let mut nav = vec!["0".to_string(); 27];
        nav[0] = "7".into(); nav[4] = "3".into(); nav[6] = "B".into(); nav[19] = "4".into(); nav[25] = "".into(); nav[26] = "".into();
        write("rdf_nav_link", vec![nav.join("\\t")]);
        write("adas_link_geometry", order.iter().map(|&i: &usize| format!("7\\t{}\\t{}\\t{}\\t0", points[i].0, points[i].1, points[i].2)).collect());
        let data = read_graph(&CSVSource::new(&dir), (0, 0), (100000, 100000));
        results.push((data.link_lengths.clone(), data.graph.weight().to_vec()));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let len = results[0].0[0];
    println!("{:?}", results);
    std::process::exit(if (len - 33_396.0).abs() < 200.0 && results.iter().all(|r| (r.0[0] - len).abs() < 1.0) { 0 } else { 1 });
}
""")
seed('C26-blocked-capture','C26',[('engine/src/report.rs',"""                self.context_stack.push(ContextStackItem::Capture(tmp));
                self.current = CurrentReportingContext::Throwaway;""","""                self.context_stack.push(ContextStackItem::Object(tmp));
                self.current = CurrentReportingContext::Throwaway;""")],
 'reporting blocked for a while within a captured part',
 'the captured values end up in an ordinary object: the capture reports nothing and cannot be closed anymore',
 PRE+"""
use rust_road_router::report::*;
fn main() {
    let guard = enable_reporting("demo");
    let capture = capture_reporting();
    report("a", json!(1));
    without_reporting(|| report("b", json!(2)));
    report("c", json!(3));
    let keys: Option<Vec<_>> = capture.reported().map(|m| m.keys().cloned().collect());
    println!("{:?}", keys);
    std::mem::forget(guard);
    std::process::exit(if keys == Some(vec!["a", "c"]) { 0 } else { 1 });
}
""")
TD=PRE+"""
use rust_road_router::algo::{catchup, customizable_contraction_hierarchy::*};
use rust_road_router::datastr::graph::floating_time_dependent::*;
fn td(n: usize, edges: &[(u32, u32, Vec<(u32, u32)>)]) -> TDGraph {
    let mut e = edges.to_vec();
    e.sort_by_key(|x| x.0);
    let mut fo = vec![0u32; n + 1];
    for x in &e { fo[x.0 as usize + 1] += 1; }
    for i in 0..n { fo[i + 1] += fo[i]; }
    let mut first = vec![0u32];
    let (mut d, mut t) = (Vec::new(), Vec::new());
    for x in &e { for p in &x.2 { d.push(p.0); t.push(p.1); } first.push(d.len() as u32); }
    TDGraph::new(fo, e.iter().map(|x| x.1).collect(), first, d, t)
}
const H: u32 = 3_600_000;
"""
seed('C15-smaller-maximum','C15',[('engine/src/datastr/graph/floating_time_dependent/shortcut.rs',"""            if !self_plf.static_lower_bound().fuzzy_lt(other_upper_bound) {""","""            if !self_plf.static_upper_bound().fuzzy_lt(other_upper_bound) {""")],
 'two routes of which one has the smaller maximum and the other one is nevertheless faster at times',
 'a route over a lower ranked node replaces the direct one for the whole day as soon as its worst case is better',
 TD+"""
fn main() {
    // 1 -> 2 takes 300 s at night and 3000 s at noon, 1 -> 0 -> 2 always 1000 s
    let mut bad = 0;
    for order in [vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![2, 1, 0]] {
        let graph = td(3, &[(1, 2, vec![(0, 300_000), (8 * H, 300_000), (12 * H, 3_000_000), (16 * H, 300_000)]), (1, 0, vec![(0, 500_000)]), (0, 2, vec![(0, 500_000)])]);
        let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order.clone()));
        let customized = catchup::customize(&cch, &graph);
        let mut server = catchup::Server::new(&cch, &customized);
        for (h, want) in [(1, 300.0), (12, 1000.0), (20, 300.0)] {
            let got = server.td_query(TDQuery { from: 1, to: 2, departure: Timestamp::new(h as f64 * 3600.0) }).distance().map(|d| f64::from(d));
            if got.map_or(true, |g| (g - want).abs() > 0.1) { println!("order {:?} at {} h: {:?} instead of {}", order, h, got, want); bad = 1; }
        }
    }
    std::process::exit(bad);
}
""")
seed('C16-constant-last-leg','C16',[('engine/src/algo/catchup/profiles.rs',"""            let mut label_idx: Vec<_> = backward
                .node_data(node)
                .labels
                .iter()
                .enumerate()
                .filter(|(_, label)| label.parent != from && label.parent != to && !upper_bound.fuzzy_lt(label.lower_bound))""","""            let mut label_idx: Vec<_> = backward
                .node_data(node)
                .labels
                .iter()
                .enumerate()
                .filter(|(_, label)| label.parent != from && label.parent != to && label.lower_bound.fuzzy_lt(upper_bound))""")],
 'a way to the target climbing over several ranks on which the travel times are constant',
 'labels of the backward search whose bounds coincide are dropped: routes are missing in the profile',
 TD+"""
fn main() {
    // a line with constant travel times up to the target, and a time dependent one at the beginning
    let mut bad = 0;
    for order in [vec![0, 1, 2, 3, 4], vec![4, 3, 2, 1, 0], vec![4, 2, 3, 1, 0], vec![3, 0, 4, 1, 2]] {
        let graph = td(5, &[(0, 1, vec![(0, 300_000), (12 * H, 3_000_000)]), (1, 2, vec![(0, 10_000)]), (2, 3, vec![(0, 20_000)]), (3, 4, vec![(0, 30_000)])]);
        let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(order.clone()));
        let customized = catchup::customize(&cch, &graph);
        let mut server = catchup::profiles::Server::new(&cch, &customized);
        for (s, t, want) in [(1, 4, 60.0), (2, 4, 50.0), (1, 3, 30.0), (3, 4, 30.0)] {
            let (_, profile, paths) = server.distance(s, t);
            let vals: Vec<f64> = profile.iter().map(|p| f64::from(p.val)).collect();
            if vals.is_empty() || paths.is_empty() || vals.iter().any(|v| (v - want).abs() > 0.1) { println!("order {:?} {}->{}: {:?} instead of {}", order, s, t, vals, want); bad = 1; }
        }
    }
    std::process::exit(bad);
}
""")
