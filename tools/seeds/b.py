seed('C11-first-route-to-hub','C11',[('engine/src/algo/hl.rs','''                dir.sort_unstable();
                for same_hub in dir.group_by_mut(|a, b| a.0 == b.0) {
                    let min_dist = same_hub.iter().map(|&(_, w)| w).min().unwrap();
                    for label in same_hub {
                        label.1 = min_dist;
                    }
                }
                dir.dedup();
''','''                dir.sort_by_key(|&(hub, _)| hub);
                dir.dedup_by_key(|&mut (hub, _)| hub);
''')],
 'a node reaching the same hub over several upward arcs, the shortest route not being over the first of them',
 'the label of a hub gets the length of the first instead of the shortest route',
 PRE+'''
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::hl::HubLabels;
fn main() {
    let mut bad = 0;
    for (a, b) in [(5, 1), (1, 5)] {
        // 0 - 1 - 3 and 0 - 2 - 3
        let graph = g(4, &[(0, 1, 1), (0, 2, 1), (1, 3, a), (2, 3, b), (1, 0, 1), (2, 0, 1), (3, 1, a), (3, 2, b)]);
        let cch = CCH::fix_order_and_build(&graph, NodeOrder::identity(4));
        let cust = customize(&cch, &graph);
        let hl = HubLabels::new(&cust.forward_graph(), &cust.backward_graph());
        let o = cch.node_order();
        for (s, t, d) in [(0, 3, 2), (3, 0, 2), (1, 2, 2), (1, 3, a.min(3)), (2, 3, b.min(3))] {
            let got = hl.dist(o.rank(s), o.rank(t));
            if got != Some(d) { println!("{}->{}: {:?} instead of {}", s, t, got, d); bad = 1; }
        }
    }
    std::process::exit(bad);
}
''')
seed('C10-no-improvement','C10',[(CCHD+'query/nearest_neighbor.rs','''                    if let Some(&Reverse((old_dist, _))) = self.closest_targets.get(target as usize) {
                        if dist < old_dist {
                            self.closest_targets.increase_key(Reverse((dist, target)));
                        }
                    } else {''','''                    if self.closest_targets.contains_index(target as usize) {
                        continue;
                    } else {''')],
 'a target found over a low ranked meeting node first while the shortest route has a higher ranked one',
 'the bucket based search keeps the first distance found for a target instead of the shortest',
 PRE+'''
use rust_road_router::algo::customizable_contraction_hierarchy::{*, query::nearest_neighbor::*};
fn main() {
    // 0 and 1 are connected over 2 (5 + 5) and over 3 (1 + 1)
    let graph = g(4, &[(0, 2, 5), (2, 0, 5), (1, 2, 5), (2, 1, 5), (0, 3, 3), (3, 0, 3), (1, 3, 3), (3, 1, 3)]);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::identity(4));
    let cust = customize_perfect(customize(&cch, &graph));
    let mut nn = BCCHNearestNeighbor::new(&cust);
    let mut bad = 0;
    for (s, t, k, d) in [(0, vec![1], 1, vec![6]), (1, vec![0], 2, vec![6]), (0, vec![1, 2], 2, vec![5, 6]), (0, vec![1, 2, 3], 3, vec![3, 5, 6])] {
        let mut got: Vec<_> = nn.select_targets(&t).query(s, k).into_iter().map(|x| x.0).collect();
        got.sort();
        if got != d { println!("{} to {:?}: {:?} instead of {:?}", s, t, got, d); bad = 1; }
    }
    std::process::exit(bad);
}
''')
seed('C25-stale-group-minimum','C25',[('engine/src/algo/metric_merging.rs','''let w1 = merged[idx1].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();''','''let w1 = merged[idx1].first().map(|&idx| metrics[idx][edge_idx]).unwrap();'''),
 ('engine/src/algo/metric_merging.rs','''let w2 = merged[idx2].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();''','''let w2 = merged[idx2].first().map(|&idx| metrics[idx][edge_idx]).unwrap();''')],
 'a group that was merged before and whose minimum is not given by its first metric takes part in a later decision',
 'the difference of groups is computed for their first metrics instead of their minima: other groups are formed',
 PRE+'''
use rust_road_router::algo::metric_merging::merge;
fn main() {
    let m: Vec<Vec<u32>> = vec![vec![3, 10, 2], vec![5, 2, 8], vec![8, 8, 11], vec![7, 4, 2], vec![8, 1, 7]];
    let r: Vec<&[u32]> = m.iter().map(|x| &x[..]).collect();
    let mut got = merge(&r, 2);
    got.iter_mut().for_each(|x| x.sort());
    got.sort();
    println!("{:?}", got);
    std::process::exit((got != vec![vec![0, 1, 3, 4], vec![2]]) as i32);
}
''')
seed('C24-first-trace-of-link','C24',[('engine/src/link_speed_estimates/link_speed_estimator.rs','''        self.last_trace = trace;
        (self.clone(), Box::new(empty()))''','''        if trace.timestamp == self.last_trace.timestamp {
            self.last_trace = trace;
        }
        (self.clone(), Box::new(empty()))''')],
 'a link which is not the first with several traces, the later ones telling another speed than the first',
 'only the first trace on a link counts: entry times and velocities after it ignore the later ones',
 '''
use rust_road_router::link_speed_estimates::*;
fn main() {
    let link = |id| LinkData { link_id: id, length: 10_000, speed_limit: 36 };
    let trace = |t, id, f| TraceData { timestamp: t, link_id: id, traversed_in_travel_direction_fraction: f };
    // 36 km/h until the middle of the second link, then a break of 10 s, then 36 km/h again
    let links = [link(1), link(2), link(3)];
    let traces = [trace(1_000_000, 1, 0.5), trace(1_001_000, 2, 0.5), trace(1_011_000, 2, 0.75), trace(1_012_250, 3, 1.0)];
    let r: Vec<_> = estimate_iter(Box::new(links.iter()), Box::new(traces.iter())).unwrap().collect();
    println!("{:?}", r);
    let entered: Vec<_> = r.iter().map(|x| x.link_entered_timestamp).collect();
    std::process::exit((entered != vec![999_500, 1_000_500, 1_011_250]) as i32);
}
''')
seed('C19-dense-blocks','C19',[('engine/src/datastr/rank_select_map.rs','''            while prefix_sums[0] <= value && value < prefix_sums[1] {''','''            if prefix_sums[0] <= value && value < prefix_sums[1] {''')],
 'more than 256 keys within one aligned block of 512 ids',
 'the index for the inverse lookup misses blocks in dense areas',
 '''
use rust_road_router::datastr::rank_select_map::*;
fn main() {
    let mut bits = BitVec::new(3000);
    for i in 0..3000 { if i % 7 != 0 { bits.set(i); } }
    let map = InvertableRankSelectMap::new(RankSelectMap::new(bits));
    let keys: Vec<usize> = (0..3000).filter(|i| i % 7 != 0).collect();
    let r = std::panic::catch_unwind(|| keys.iter().enumerate().all(|(i, &k)| map.inverse(i) == k && map.at(k) == i));
    println!("{:?}", r);
    std::process::exit(!matches!(r, Ok(true)) as i32);
}
''')
seed('C18-last-child','C18',[('engine/src/datastr/index_heap.rs','''min(TREE_ARITY * parent_index + TREE_ARITY + 1, heap_size)''','''min(TREE_ARITY * (parent_index + 1), heap_size)''')],
 'the smallest remaining element is the last child of its parent',
 'elements are not popped in order',
 '''
use rust_road_router::datastr::index_heap::*;
fn main() {
    // keys with their own index
    #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
    struct E(u32, usize);
    impl Indexing for E { fn as_index(&self) -> usize { self.1 } }
    let mut bad = 0;
    for round in 0..50u32 {
        let mut h = IndexdMinHeap::new(100);
        let mut keys = Vec::new();
        for i in 0..100usize { let k = (i as u32 * 7919 + round * 31) % 1009; keys.push(k); h.push(E(k, i)); }
        keys.sort();
        let mut got = Vec::new();
        while let Some(E(k, _)) = h.pop() { got.push(k); }
        if got != keys { bad = 1; }
    }
    println!("{}", bad);
    std::process::exit(bad);
}
''')
seed('C12-window-end','C12',[('engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs','''            Location::On(index) => (index, INFINITY),
            Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),''','''            Location::On(index) => (index, INFINITY),
            Location::Between(lower_index, _upper_index) => (lower_index, self.travel_time[lower_index]),''')],
 'a window whose minimum is taken at its very end, between two breakpoints',
 'the lower bound within the window is too high because its last instant is left out',
 '''
use rust_road_router::datastr::graph::time_dependent::*;
fn main() {
    let dep = [0, 1000, 2000, 86_400_000];
    let tt = [3000, 2500, 3000, 3000];
    let f = PiecewiseLinearFunction::new(&dep, &tt);
    let mut bad = 0;
    for (a, b, want) in [(86_300_000, 86_401_000, 2500), (86_300_000, 86_400_500, 2750), (86_300_000, 86_403_000, 2500), (500, 1000, 2500)] {
        let got = f.lower_bound_in_range(a..b);
        if got != want { println!("{}..{}: {} instead of {}", a, b, got, want); bad = 1; }
    }
    std::process::exit(bad);
}
''')
seed('C20-equal-first-out','C20',[('engine/src/datastr/graph/link_id_to_tail_mapper.rs','''                while *index < self.deg_zero_nodes_indices.len() && self.deg_zero_nodes_indices[*index] == link_id {
                    *index += 1;
                }
                *index
''','''                while *index > 0 && self.deg_zero_nodes_indices[*index - 1] == link_id {
                    *index -= 1;
                }
                *index + self.deg_zero_nodes_indices[*index..].iter().take(3).filter(|&&i| i == link_id).count()
''')],
 'more than three consecutive nodes without outgoing arcs right before the tail of a link',
 'the tail of a link behind a run of nodes without arcs is wrong',
 PRE+'''
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
fn main() {
    let mut bad = 0;
    for gap in 0..8u32 {
        let graph = g(gap as usize + 3, &[(0, 1, 1), (0, 2, 1), (gap + 1, 0, 1), (gap + 1, 1, 1), (gap + 2, 1, 1)]);
        let r = std::panic::catch_unwind(|| { let m = LinkIdToTailMapper::new(&graph); (0..5).map(|e| m.link_id_to_tail(e)).collect::<Vec<_>>() });
        match r { Ok(v) if v == vec![0, 0, gap + 1, gap + 1, gap + 2] => (), r => { println!("gap {}: {:?}", gap, r); bad = 1; } }
    }
    std::process::exit(bad);
}
''')
seed('C17-trailing-bytes','C17',[('engine/src/io.rs','''        assert_eq!(metadata.len() as usize, object.data_bytes_mut().len());
        file.read_exact(object.data_bytes_mut())?;
''','''        let mut read = 0;
        while read < object.data_bytes_mut().len() {
            match file.read(&mut object.data_bytes_mut()[read..])? {
                0 => break,
                n => read += n,
            }
        }
'''),('engine/src/io.rs','''        assert_eq!(num_bytes % mem::size_of::<T>(), 0);
        let num_elements = num_bytes / mem::size_of::<T>();
        (0..num_elements).map(|_| T::default()).collect()
    }
}

impl<T: Default + Copy> Load for Box<[T]> {''','''        let num_elements = num_bytes / mem::size_of::<T>();
        (0..num_elements).map(|_| T::default()).collect()
    }
}

impl<T: Default + Copy> Load for Box<[T]> {''')],
 'a file that was cut in the middle of an element',
 'the damaged file is loaded without an error, the last element is lost silently',
 '''
use rust_road_router::io::*;
fn main() {
    let dir = std::env::temp_dir().join(format!("demo-c17-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("data");
    let v: Vec<u32> = (0..1000).collect();
    v.write_to(&file).unwrap();
    assert_eq!(Vec::<u32>::load_from(&file).unwrap(), v);
    let bytes = std::fs::read(&file).unwrap();
    let mut bad = 0;
    for cut in [1, 2, 3, 1001] {
        std::fs::write(&file, &bytes[..bytes.len() - cut]).unwrap();
        let f = file.clone();
        let r = std::panic::catch_unwind(move || Vec::<u32>::load_from(&f));
        if let Ok(Ok(w)) = r { println!("loaded {} elements after cutting {} bytes", w.len(), cut); bad = 1; }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    std::process::exit(bad);
}
''')
