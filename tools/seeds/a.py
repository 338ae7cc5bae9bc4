CCHD='engine/src/algo/customizable_contraction_hierarchy/'
PRE='''
#![allow(unused)]
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
fn g(n: usize, edges: &[(u32, u32, u32)]) -> OwnedGraph {
    let mut e = edges.to_vec();
    e.sort_by_key(|x| x.0);
    let mut fo = vec![0u32; n + 1];
    for x in &e { fo[x.0 as usize + 1] += 1; }
    for i in 0..n { fo[i + 1] += fo[i]; }
    OwnedGraph::new(fo, e.iter().map(|x| x.1).collect(), e.iter().map(|x| x.2).collect())
}
'''
seed('C03-stale-labels','C03',[(CCHD+'query.rs','''                (Some(fw_node), None) => {
                    self.walked_nodes += 1;
                    fw_walk.next();
                    fw_walk.reset_distance(fw_node);
                }''','''                (Some(_), None) => {
                    self.walked_nodes += 1;
                    fw_walk.next();
                }''')],
 'a query between two components of the elimination forest whose source is in the higher-ranked one, followed by a query that uses the labels left behind',
 'the forward labels are not reset after an unreachable query, so later answers of the same server are too short',
 PRE+'''
use rust_road_router::algo::customizable_contraction_hierarchy::{*, query::Server};
fn main() {
    // two components: 0 - 1 - 2 and 3 - 4 - 5
    let graph = g(6, &[(0, 1, 3), (1, 0, 3), (1, 2, 8), (2, 1, 8), (3, 4, 7), (4, 3, 7), (4, 5, 5), (5, 4, 5)]);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(vec![0, 2, 1, 3, 5, 4]));
    let mut bad = 0;
    for (s, t) in [(0, 5), (5, 0), (2, 3), (3, 2)] {
        for (a, b, d) in [(3, 5, 12), (5, 3, 12), (0, 2, 11), (2, 0, 11)] {
            let mut srv = Server::new(customize(&cch, &graph));
            assert_eq!(srv.query(Query { from: s, to: t }).distance(), None);
            let got = srv.query(Query { from: a, to: b }).distance();
            if got != Some(d) { println!("{}->{} after {}->{}: {:?} instead of {}", a, b, s, t, got, d); bad = 1; }
        }
    }
    std::process::exit(bad);
}
''')
seed('C02-middle-node','C02',[('engine/src/algo/contraction_hierarchy/mod.rs','''                if weight < *other_weight {
                    *shortcut_middle = over;
''','''                if weight < *other_weight {
                    if *shortcut_middle > over {
                        *shortcut_middle = over;
                    }
''')],
 'an existing shortcut (not an input arc) that is shortened by the contraction of a later node, and a path over it',
 'the middle node of a shortened shortcut is stale: the reported path is longer than the reported distance',
 PRE+'''
use rust_road_router::algo::contraction_hierarchy::{*, query::Server};
fn main() {
    // 3 -> 4 via 1 (5+1), then shortened via 2 (1+2)
    let graph = g(5, &[(0, 1, 9), (3, 1, 5), (3, 2, 1), (2, 1, 1), (1, 4, 1)]);
    let ord = NodeOrder::identity(5);
    let mut srv = Server::new(contract(&graph, ord.clone()), ord);
    let mut r = srv.query(Query { from: 3, to: 4 });
    assert_eq!(r.distance(), Some(3));
    let p = r.node_path().unwrap();
    println!("{:?}", p);
    std::process::exit((p != vec![3, 2, 1, 4]) as i32);
}
''')
seed('C01-stale-meeting-node','C01',[('engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs','''                            *meeting_node = to;
                            return Some(*forward_dijkstra.tentative_distance(to));''','''                            return Some(*forward_dijkstra.tentative_distance(to));''')],
 'a query from a node to itself after a query with another meeting node on the same bidirectional server, and its path',
 'the path of the trivial query is reconstructed from the meeting node of the previous query',
 PRE+'''
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::a_star::BiDirZeroPot;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); println!("no end"); std::process::exit(1); });
    let graph = g(4, &[(0, 1, 3), (1, 2, 4), (2, 3, 5), (3, 2, 5), (2, 1, 4), (1, 0, 3)]);
    let mut srv = Server::<OwnedGraph, OwnedGraph, BiDirZeroPot, ChooseMinKeyDir>::new(graph);
    assert_eq!(srv.query(Query { from: 0, to: 3 }).distance(), Some(12));
    let mut r = srv.query(Query { from: 0, to: 0 });
    assert_eq!(r.distance(), Some(0));
    let p = r.node_path().unwrap();
    println!("{:?}", p);
    std::process::exit((p != vec![0]) as i32);
}
''')
