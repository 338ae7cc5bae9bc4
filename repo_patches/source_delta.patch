From cd6be288b4a241c420e522e8d2f5650a8af5e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 01/51] fix: contraction keeps only the shortest of several
 parallel edges

Parallel edges made the forward and backward representation disagree during
contraction, which ended in a failing assertion.
---
 engine/src/algo/contraction_hierarchy/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..9c682cd 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -138,7 +138,13 @@ impl ContractionGraph {
                     })
                     .collect()
             });
-            outs.zip(ins).map(|(outgoing, incoming)| Node { outgoing, incoming }).collect()
+            outs.zip(ins)
+                .map(|(mut outgoing, mut incoming)| {
+                    keep_shortest_parallel(&mut outgoing);
+                    keep_shortest_parallel(&mut incoming);
+                    Node { outgoing, incoming }
+                })
+                .collect()
         };
 
         ContractionGraph { nodes }
@@ -294,6 +300,12 @@ impl<'a> PartialContractionGraph<'a> {
     }
 }
 
+// Contraction relies on at most one edge between each (ordered) pair of nodes
+fn keep_shortest_parallel(links: &mut Vec<(Link, NodeId)>) {
+    links.sort_by_key(|&(Link { node, weight }, _)| (node, weight));
+    links.dedup_by_key(|&mut (Link { node, .. }, _)| node);
+}
+
 /// Create an overlay graph by contracting a fixed number of nodes
 pub fn overlay<Graph: LinkIterGraph>(graph: &Graph, order: NodeOrder, contraction_count: usize) -> (OwnedGraph, OwnedGraph) {
     let mut graph = ContractionGraph::new(graph, order);
-- 
2.43.0


From d1265e679fa38fb3d2d65da4fe29a7ff83286b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 02/51] fix: CH path retrieval translates nodes to ranks and
 unpacks shortcuts properly

The start and target node were compared to ranks and shortcuts were looked up with
wrong end points, so retrieving paths panicked or returned wrong paths.
---
 .../src/algo/contraction_hierarchy/query.rs   | 79 ++++++++-----------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..2355946 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,49 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Collect the up-down path found by the query (in ranks) and then recursively unpack all shortcuts on it.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
-
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
-            }
+        let mut packed_path = vec![self.meeting_node];
+        while *packed_path.last().unwrap() != from {
+            packed_path.push(self.forward_data.predecessors[*packed_path.last().unwrap() as usize].0);
+        }
+        packed_path.reverse();
+        while *packed_path.last().unwrap() != to {
+            packed_path.push(self.backward_data.predecessors[*packed_path.last().unwrap() as usize].0);
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
+        let mut path = vec![from];
+        for arc in packed_path.windows(2) {
+            self.unpack_arc(arc[0], arc[1], &mut path);
+        }
 
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // Append all nodes after `tail` on the path represented by the arc from `tail` to `head`.
+    fn unpack_arc(&self, tail: NodeId, head: NodeId, path: &mut Vec<NodeId>) {
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+
+        // upward arcs are stored at their tail in the forward graph, downward arcs at their head in the backward graph
+        let middle = if tail < head {
+            forward_middle_nodes[self.forward.edge_indices(tail, head).next().unwrap().0 as usize]
+        } else {
+            backward_middle_nodes[self.backward.edge_indices(head, tail).next().unwrap().0 as usize]
+        };
+
+        if middle < self.forward.num_nodes() as NodeId {
+            self.unpack_arc(tail, middle, path);
+            self.unpack_arc(middle, head, path);
+        } else {
+            path.push(head);
+        }
     }
 }
 
-- 
2.43.0


From 9e01572b4f67171898b7261cf29bc983a4d4e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 03/51] fix: partial contraction leaves the edges to the first
 uncontracted node in place

---
 engine/src/algo/contraction_hierarchy/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index 9c682cd..859ca72 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -170,12 +170,12 @@ impl ContractionGraph {
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
         // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        while contraction_count > 0 {
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(lowest) => lowest,
+                None => break,
+            };
+            contraction_count -= 1;
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From 59dfd7f4e09693ef9c0273a647c9dfead73af0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/51] fix: splitting CCH nodes into chunks of edges works for
 few edges and nodes without edges

With less edges than chunks or without edges the perfect customization (and building
time-dependent potentials) panicked; with leading nodes without upward edges
the resulting graph was shifted.
---
 .../customization.rs                             |  8 +-------
 .../customization/parallelization.rs             | 13 +++++++++++++
 engine/src/algo/td_astar.rs                      | 16 ++--------------
 engine/src/algo/traffic_aware/td_traffic_pots.rs | 16 ++--------------
 4 files changed, 18 insertions(+), 35 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..5d383b0 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -457,13 +457,7 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
-                .collect();
+            let first_node_of_chunk = chunk_nodes_by_edges(cch.forward_tail(), n, k);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
index 1bcd425..ce6ada3 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
@@ -65,6 +65,19 @@ impl<F: Sync + Fn(Range<usize>, usize, usize, &mut [T], &mut [T], &mut [E], &mut
     }
 }
 
+/// Split the nodes `0..n` into `k` consecutive (possibly empty) chunks with roughly the same number of outgoing edges each.
+/// `tail` contains the (ascending) tail node of each edge.
+/// The `i`-th chunk goes from the `i`-th node (inclusive) to the `i+1`-th node (exclusive) of the result.
+pub fn chunk_nodes_by_edges(tail: &[NodeId], n: usize, k: usize) -> Vec<usize> {
+    let target_edges_per_chunk = std::cmp::max(1, (tail.len() + k - 1) / k);
+    let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+        .chain(tail.chunks(target_edges_per_chunk).skip(1).map(|chunk| chunk[0] as usize))
+        .collect();
+    // with few edges, there might be less than k chunks
+    first_node_of_chunk.resize(k + 1, n);
+    first_node_of_chunk
+}
+
 /// Parallelization of basic customization.
 pub struct SeperatorBasedParallelCustomization<'a, T, F, G, C, E = ()> {
     cch: &'a C,
diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..602dd26 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -317,13 +317,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::chunk_nodes_by_edges(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1094,13 +1088,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::chunk_nodes_by_edges(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..78be43f 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -218,13 +218,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::chunk_nodes_by_edges(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -884,13 +878,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = crate::algo::customizable_contraction_hierarchy::customization::parallelization::chunk_nodes_by_edges(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From a1abea463bce3d666f03cdd7fab0379e1af68946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 05/51] fix: bucket CH potential asserts that the head's
 distances are final, not the current node's

---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..a273bf7 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -551,7 +551,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From 0397064bf985058931c7810d8f733dc505b78eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 06/51] fix: avoid landmark selection terminates when the tree
 root has a self loop

---
 engine/src/algo/alt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..b7e2aa7 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -120,7 +120,7 @@ impl ALTPotData {
             while let Some(next) = graph
                 .link_iter(v)
                 .map(|l| l.head())
-                .filter(|&l| dists.predecessor(l) == v)
+                .filter(|&l| l != v && dists.predecessor(l) == v)
                 .max_by_key(|&l| weights[l as usize])
             {
                 v = next;
-- 
2.43.0


From 52a6830449d8222fc0641b3506cab68a4b4a1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 07/51] fix: average potentials are not clamped, so the
 bidirectional stopping criterion stays correct

---
 engine/src/algo/a_star.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..02dac81 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -268,9 +268,14 @@ pub struct AveragePotential<PF, PB, const IMPROVED_PRUNING: bool = false> {
     backward_potential: PB,
     fw_add: i32,
     bw_add: i32,
-    mu_add: Weight,
+    mu_add: u64,
 }
 
+// Shift keeping the average potentials nonnegative.
+// Clamping them to zero is not an option: the forward and the backward potential have to add up to the same value for
+// every node. Otherwise, the stopping criterion is not correct.
+const AVERAGE_POT_SHIFT: i64 = (INFINITY / 2 + 1) as i64;
+
 impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP> {
     pub fn new(forward_potential: PF, backward_potential: PB) -> Self {
         Self {
@@ -297,7 +302,6 @@ impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP>
     }
 }
 
-use std::cmp::max;
 impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
     fn init(&mut self, source: NodeId, target: NodeId) {
         self.forward_potential.init(target);
@@ -305,19 +309,19 @@ impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePot
 
         self.fw_add = (self.backward_potential.potential(target).unwrap_or(INFINITY) / 2) as i32;
         self.bw_add = (self.forward_potential.potential(source).unwrap_or(INFINITY) / 2) as i32;
-        self.mu_add = self.potential(source).map(|p| (p + self.fw_add) as Weight).unwrap_or(0);
+        self.mu_add = (self.fw_add as i64 + self.bw_add as i64 + 2 * AVERAGE_POT_SHIFT) as u64;
     }
     fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
         match (fw_min_queue, bw_min_queue) {
-            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist + self.mu_add,
+            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue as u64 + bw_min_queue as u64 >= stop_dist as u64 + self.mu_add,
             _ => true,
         }
     }
     fn forward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(p + self.fw_add, 0) as Weight)
+        self.potential(node).map(|p| (self.fw_add as i64 + p as i64 + AVERAGE_POT_SHIFT) as Weight)
     }
     fn backward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(self.bw_add - p, 0) as Weight)
+        self.potential(node).map(|p| (self.bw_add as i64 - p as i64 + AVERAGE_POT_SHIFT) as Weight)
     }
     fn forward_potential_raw(&mut self, node: NodeId) -> Option<Weight> {
         self.forward_potential.potential(node)
-- 
2.43.0


From 0f9d5c5967e8787e95a4aea5ff5251cfbe0baebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 08/51] fix: bidirectional search only returns the distance of
 a settled target if no shorter path is known

---
 engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
index 5956aac..8d486f2 100644
--- a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
@@ -89,7 +89,8 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                     ) {
                         num_queue_pops += 1;
                         inspect(node, *forward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
-                        if node == to {
+                        // with pruning or once the forward search is done, there may already be a shorter path
+                        if node == to && *forward_dijkstra.tentative_distance(to) <= tentative_distance {
                             *meeting_node = to;
                             return Some(*forward_dijkstra.tentative_distance(to));
                         }
@@ -115,7 +116,7 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                     ) {
                         num_queue_pops += 1;
                         inspect(node, *backward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
-                        if node == from {
+                        if node == from && *backward_dijkstra.tentative_distance(from) <= tentative_distance {
                             *meeting_node = from;
                             return Some(*backward_dijkstra.tentative_distance(from));
                         }
-- 
2.43.0


From d27a37cebe37b1f7af819b96fc04a42032b52556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 09/51] fix: topocore classifies only core nodes by degree and
 never skips bridge nodes of a single edge core

---
 engine/src/algo/topocore.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..d7fa836 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -522,8 +522,9 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
 
     let reversed = UnweightedOwnedGraph::reversed(graph);
 
-    let symmetric_degrees = (0..graph.num_nodes())
-        .map(|node| symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId)) as u8)
+    let mut symmetric_degrees = (0..graph.num_nodes())
+        .map(|node| symmetric_degree(graph.link_iter(node as NodeId), LinkIterable::<NodeIdT>::link_iter(&reversed, node as NodeId)))
+        .map(|deg| min(deg, u8::MAX as usize) as u8)
         .collect::<Vec<u8>>();
 
     let biggest = biconnected(&UndirectedGraph { ins: &reversed, outs: graph })
@@ -539,6 +540,7 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
 
     let mut components = vec![0; n];
     let mut bridge = Vec::new();
+    let mut is_bridge = BitVec::new(n);
     let mut queue = std::collections::VecDeque::new();
 
     for node in 0..n {
@@ -551,6 +553,12 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
                     if biggest_bcc.get(neighbor as usize) {
                         if bridge.len() < component_idx as usize {
                             bridge.push(InRangeOption::some(neighbor));
+                            // When the core is only a single edge, searches must not skip its nodes, because they may be the only ones where
+                            // the searches of different components meet.
+                            if is_bridge.get(neighbor as usize) || symmetric_degrees[neighbor as usize] < 3 {
+                                symmetric_degrees[neighbor as usize] = max(symmetric_degrees[neighbor as usize], 4);
+                            }
+                            is_bridge.set(neighbor as usize);
                         } else {
                             debug_assert_eq!(bridge.last().unwrap().value().unwrap(), neighbor);
                         }
@@ -597,8 +605,14 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    let deg3 = new_order[..biggest_bcc_size]
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 4)
+        .unwrap_or(biggest_bcc_size);
+    let deg2 = new_order[..biggest_bcc_size]
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 3)
+        .unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From c82447fdc654818e721a7fc81257bafac8bc5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 10/51] fix: topology queries within one component outside of
 the core find the target

---
 engine/src/algo/ch_potentials/query.rs    | 14 +++++++++++---
 engine/src/algo/ch_potentials/td_query.rs | 14 +++++++++++---
 engine/src/algo/topocore.rs               |  7 +++++++
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..48b0c98 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -93,8 +93,15 @@ where
         potential.init(query.to());
         report!("lower_bound", potential.potential(query.from()).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
+        let (into_core, out_of_core) = if virtual_topocore.in_same_component(query.from(), query.to()) {
+            // the core is of no use, the component search has to find the target on its own
+            (query.to(), query.to())
+        } else {
+            (
+                virtual_topocore.bridge_node(query.from()).unwrap_or(query.from()),
+                virtual_topocore.bridge_node(query.to()).unwrap_or(query.to()),
+            )
+        };
         let into_core_pot = potential.potential(into_core)?;
 
         let mut comp_search = TopoDijkstraRun::query(
@@ -104,7 +111,8 @@ where
             DijkstraInit::from_query(&query),
         );
 
-        while let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) {
+        while query.from() != into_core {
+            let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) else { break };
             num_queue_pops += 1;
             inspect(node, &virtual_topocore.order, &comp_search, potential);
 
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..73f6de1 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -106,8 +106,15 @@ where
         potential.init(query.from(), query.to(), departure);
         report!("lower_bound", potential.potential(query.from(), Some(departure)).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
+        let (into_core, out_of_core) = if virtual_topocore.in_same_component(query.from(), query.to()) {
+            // the core is of no use, the component search has to find the target on its own
+            (query.to(), query.to())
+        } else {
+            (
+                virtual_topocore.bridge_node(query.from()).unwrap_or(query.from()),
+                virtual_topocore.bridge_node(query.to()).unwrap_or(query.to()),
+            )
+        };
         let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
 
         let mut comp_search = TopoDijkstraRun::query(
@@ -117,7 +124,8 @@ where
             DijkstraInit::from_query(&query),
         );
 
-        while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
+        while query.from() != into_core {
+            let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) else { break };
             num_queue_pops += 1;
             inspect(node, &virtual_topocore.order, &comp_search, potential);
 
diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index d7fa836..cff4c78 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -476,6 +476,13 @@ impl VirtualTopocore {
 
         self.bridge[self.bcc[node as usize - self.biggest_bcc] as usize].value()
     }
+
+    /// Are both nodes outside of the core and in the same component?
+    pub fn in_same_component(&self, node1: NodeId, node2: NodeId) -> bool {
+        !self.node_type(node1).in_core()
+            && !self.node_type(node2).in_core()
+            && self.bcc[node1 as usize - self.biggest_bcc] == self.bcc[node2 as usize - self.biggest_bcc]
+    }
 }
 
 fn symmetric_degree(fw_iter: impl Iterator<Item = NodeIdT>, bw_iter: impl Iterator<Item = NodeIdT>) -> usize {
-- 
2.43.0


From f1d805995dae5195aa06f53d83e20b6886b15a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 11/51] fix: bidirectional topology query keeps arcs from the
 core into the components of the terminals

---
 engine/src/algo/ch_potentials/query.rs | 27 ++++++++++++++++++++------
 engine/src/algo/topocore.rs            | 10 ++--------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 48b0c98..40ec19a 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -723,7 +723,10 @@ where
 
     fn query(&mut self, mut query: Query) -> QueryResult<Self::P<'_>, Weight> {
         query.permutate(&self.virtual_topocore.order);
-        QueryResult::new(self.runner.distance(query, INFINITY, None), BiDirPathServerWrapper(self, query))
+        // No need to search in components outside of the core which contain neither of the terminals
+        let topo = &self.virtual_topocore;
+        let relevant = |node| topo.node_type(node).in_core() || topo.in_same_component(node, query.from) || topo.in_same_component(node, query.to);
+        QueryResult::new(self.runner.distance(query, INFINITY, None, relevant), BiDirPathServerWrapper(self, query))
     }
 }
 
@@ -778,7 +781,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirCoreServer<P, D> {
         cap: Weight,
         pot_cap: Option<Weight>,
     ) -> QueryResult<BiDirCorePathServerWrapper<P, D, Q>, Weight> {
-        QueryResult::new(self.runner.distance(query, cap, pot_cap), BiDirCorePathServerWrapper(self, query))
+        QueryResult::new(self.runner.distance(query, cap, pot_cap, |_| true), BiDirCorePathServerWrapper(self, query))
     }
 
     fn edge_path(&self, query: impl GenQuery<Timestamp>) -> Vec<EdgeIdT> {
@@ -845,7 +848,7 @@ where
     type P<'s> = BiDirCorePathServerWrapper<'s, P, D, Query> where Self: 's;
 
     fn query(&mut self, query: Query) -> QueryResult<Self::P<'_>, Weight> {
-        QueryResult::new(self.runner.distance(query, INFINITY, None), BiDirCorePathServerWrapper(self, query))
+        QueryResult::new(self.runner.distance(query, INFINITY, None, |_| true), BiDirCorePathServerWrapper(self, query))
     }
 }
 
@@ -860,7 +863,13 @@ struct BiDirSkipLowDegRunner<P = BiDirZeroPot, D = ChooseMinKeyDir> {
 }
 
 impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
-    fn distance(&mut self, query: impl GenQuery<Timestamp> + Copy, cap: Weight, pot_cap: Option<Weight>) -> Option<Weight> {
+    fn distance(
+        &mut self,
+        query: impl GenQuery<Timestamp> + Copy,
+        cap: Weight,
+        pot_cap: Option<Weight>,
+        relevant: impl Fn(NodeId) -> bool,
+    ) -> Option<Weight> {
         use std::cmp::min;
 
         report!("algo", "Virtual Topocore Bidirectional Core Query");
@@ -897,6 +906,9 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                 if dir_chooser.choose(forward_dijkstra.queue().peek().map(|q| q.key), backward_dijkstra.queue().peek().map(|q| q.key)) {
                     if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            if !relevant(head) {
+                                return false;
+                            }
                             let mut pot = potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
@@ -920,7 +932,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().forward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.to() {
+                        if node == query.to() && *forward_dijkstra.tentative_distance(query.to()) <= tentative_distance {
                             *meeting_node = query.to();
                             return Some(*forward_dijkstra.tentative_distance(query.to()));
                         }
@@ -928,6 +940,9 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                 } else {
                     if let Some(node) = backward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            if !relevant(head) {
+                                return false;
+                            }
                             let mut pot = potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
@@ -951,7 +966,7 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                         |node| potential.borrow_mut().backward_potential(node),
                     ) {
                         num_queue_pops += 1;
-                        if node == query.from() {
+                        if node == query.from() && *backward_dijkstra.tentative_distance(query.from()) <= tentative_distance {
                             *meeting_node = query.from();
                             return Some(*backward_dijkstra.tentative_distance(query.from()));
                         }
diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index cff4c78..cd3228b 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -706,17 +706,11 @@ impl<Graph> VirtualTopocoreGraph<Graph> {
         let topocore = virtual_topocore(graph);
         (
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<G>>::permutated_filtered(&graph, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<G>>::permutated(graph, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<Graph>>::permutated_filtered(&reversed, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<Graph>>::permutated(&reversed, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             topocore,
-- 
2.43.0


From 16cfffa190315ed25c837591be055320aefdbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 12/51] fix: parallel bidirectional topology query does not
 lose the meeting node

---
 engine/src/algo/ch_potentials/query.rs | 56 +++++++++++---------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 40ec19a..b862a1d 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1130,6 +1130,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                 ) {
                     if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            // Both searches first store their label and then look at the label of the other one.
+                            // At least one of them has to see the label of the other one.
+                            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
                             let mut pot = fw_potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
@@ -1153,7 +1156,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.to() {
                             fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.to()), num_queue_pops);
+                            break;
                         }
                     }
                 }
@@ -1182,6 +1185,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                 ) {
                     if let Some(node) = backward_dijkstra.next_with_improve_callback_and_potential(
                         |head, &dist| {
+                            // Both searches first store their label and then look at the label of the other one.
+                            // At least one of them has to see the label of the other one.
+                            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
                             let mut pot = bw_potential.borrow_mut();
                             if let Some(pot_cap) = pot_cap {
                                 if pot.forward_potential_raw(head).unwrap_or(INFINITY) + pot.backward_potential_raw(head).unwrap_or(INFINITY) > pot_cap {
@@ -1205,7 +1211,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.from() {
                             bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.from()), num_queue_pops);
+                            break;
                         }
                     }
                 }
@@ -1226,36 +1232,22 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
         report!("num_queue_pushs", forward_dijkstra.num_queue_pushs() + backward_dijkstra.num_queue_pushs());
         report!("num_relaxed_arcs", forward_dijkstra.num_relaxed_arcs() + backward_dijkstra.num_queue_pushs());
 
-        let fw_meeting = fw_meeting.map(|fw_meeting| {
-            (
-                fw_meeting,
-                self.forward_dijkstra_data.distances.get(fw_meeting as usize) + self.backward_dijkstra_data.distances.get(fw_meeting as usize),
-            )
-        });
-        let bw_meeting = bw_meeting.map(|bw_meeting| {
-            (
-                bw_meeting,
-                self.forward_dijkstra_data.distances.get(bw_meeting as usize) + self.backward_dijkstra_data.distances.get(bw_meeting as usize),
-            )
-        });
-
-        match (fw_meeting, bw_meeting) {
-            (Some((fw_meet, fw_dist)), Some((bw_meet, bw_dist))) => {
-                if fw_dist < bw_dist {
-                    self.meeting_node = fw_meet;
-                    Some(fw_dist)
-                } else {
-                    self.meeting_node = bw_meet;
-                    Some(bw_dist)
-                }
-            }
-            (Some((fw_meet, fw_dist)), None) => {
-                self.meeting_node = fw_meet;
-                Some(fw_dist)
-            }
-            (None, Some((bw_meet, bw_dist))) => {
-                self.meeting_node = bw_meet;
-                Some(bw_dist)
+        // Nodes of low degree are skipped, so the searches may have reached the terminals without noticing that they met there.
+        let best_meeting = [fw_meeting, bw_meeting, Some(query.to()), Some(query.from())]
+            .into_iter()
+            .flatten()
+            .map(|node| {
+                (
+                    self.forward_dijkstra_data.distances.get(node as usize) + self.backward_dijkstra_data.distances.get(node as usize),
+                    node,
+                )
+            })
+            .min_by_key(|&(dist, _)| dist);
+
+        match best_meeting {
+            Some((dist, node)) if dist < INFINITY => {
+                self.meeting_node = node;
+                Some(dist)
             }
             _ => None,
         }
-- 
2.43.0


From 61729f548046bcbc022c80fb641213689e42ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 13/51] fix: PotentialForPermutated delegates stop_forward and
 stop_backward

---
 engine/src/algo/a_star.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index 02dac81..d97a4e7 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -157,10 +157,10 @@ impl<P: BiDirPotential> BiDirPotential for PotentialForPermutated<P> {
         self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn stop_forward(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
-        self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
+        self.potential.stop_forward(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn stop_backward(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
-        self.potential.stop(fw_min_queue, bw_min_queue, stop_dist)
+        self.potential.stop_backward(fw_min_queue, bw_min_queue, stop_dist)
     }
     fn prune_forward(&mut self, NodeIdT(head): NodeIdT, fw_dist_head: Weight, reverse_min_queue: Weight, max_dist: Weight) -> bool {
         self.potential
-- 
2.43.0


From bc1f4003a82496bd4c2c7b35263ef2222bcb79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 14/51] fix: bucket selection search does not propagate
 unreachable terminals over closed arcs

---
 engine/src/algo/ch_potentials.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index a273bf7..4bbf11e 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -689,10 +689,12 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
-                    if self.terminal_dists[terminal as usize] == INFINITY {
-                        self.used_terminals.push(NodeIdT(terminal));
+                    if dist + weight < self.terminal_dists[terminal as usize] {
+                        if self.terminal_dists[terminal as usize] == INFINITY {
+                            self.used_terminals.push(NodeIdT(terminal));
+                        }
+                        self.terminal_dists[terminal as usize] = dist + weight;
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
                 }
             }
 
-- 
2.43.0


From 356844d215f22bfbda8d427166cd10b2152585bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 15/51] fix: bucket CCH nearest neighbor search does not report
 unreachable targets

---
 .../query/nearest_neighbor.rs                                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..ab0843f 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -211,7 +211,7 @@ impl<'a> BCCHNearestNeighbor<'a> {
 
         while let Some(node) = fw_walk.peek() {
             let fw_dist = fw_walk.tentative_distance(node);
-            if self.closest_targets.len() < k || fw_dist < self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) {
+            if fw_dist < INFINITY && (self.closest_targets.len() < k || fw_dist < self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY)) {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
-- 
2.43.0


From 9cb10c8f34ec14b923e50f5ebe1607b6695fe3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 16/51] fix: separator based nearest neighbor search does not
 prune the cell of the source

---
 .../query/nearest_neighbor.rs                                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index ab0843f..4bb3d4f 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -100,7 +101,8 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                 for child in &cell.children {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
-                    let mut lower_bound_dist = INFINITY;
+                    let child_contains_source = source_rank <= top_cell_node && (top_cell_node - source_rank) < child.num_nodes as NodeId;
+                    let mut lower_bound_dist = if child_contains_source { 0 } else { INFINITY };
                     for &boundary in &self.cch.head()[top_node_out_edges] {
                         lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
                     }
-- 
2.43.0


From bb2b96bcdeef6b775cba8b2996ba3272bb71df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 17/51] fix: hub labels ignore closed arcs

---
 engine/src/algo/hl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/hl.rs b/engine/src/algo/hl.rs
index 506e44e..d2a8fc8 100644
--- a/engine/src/algo/hl.rs
+++ b/engine/src/algo/hl.rs
@@ -27,13 +27,13 @@ impl HubLabels {
             self.outgoing[node].push((node as NodeId, 0));
             self.incoming[node].push((node as NodeId, 0));
 
-            for link in LinkIterable::<Link>::link_iter(up, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(up, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (out_remaining, out_done) = self.outgoing.split_at_mut(node + 1);
                 let cur_out = out_remaining.last_mut().unwrap();
                 cur_out.extend(out_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
             }
 
-            for link in LinkIterable::<Link>::link_iter(down, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(down, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (in_remaining, in_done) = self.incoming.split_at_mut(node + 1);
                 let cur_in = in_remaining.last_mut().unwrap();
                 cur_in.extend(in_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
-- 
2.43.0


From d2306b747d8c32dbbd762cfbdf5b668f7b61ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 18/51] fix: average of travel time functions handles constant
 functions and clips partially covered segments

---
 .../graph/time_dependent/piecewise_linear_function.rs    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..9dd3857 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,14 +30,19 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
         let (first_range, second_range) = monotone_range.split(period());
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-            sum += u64::from(seg.line.line().from.val) * u64::from(delta);
-            sum += u64::from(seg.line.line().to.val) * u64::from(delta);
+            let line = seg.line.into_monotone_at_line();
+            sum += u64::from(line.interpolate_tt_in_range(seg.valid.start)) * u64::from(delta);
+            sum += u64::from(line.interpolate_tt_in_range(seg.valid.end)) * u64::from(delta);
         }
         (sum / 2 / u64::from(total_time)) as Weight
     }
-- 
2.43.0


From d4ad88f206f5b053bed77baf2a0b08a78cee5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 19/51] fix: travel time bounds for windows beyond midnight and
 upper bounds for windows

---
 .../piecewise_linear_function.rs              | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 9dd3857..aee0518 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -64,9 +64,13 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.end.saturating_sub(range.start) >= period() {
+            return self.lower_bound();
+        }
+
+        let start = range.start % period();
+        let (first_range, second_range) = (start..start + range.end.saturating_sub(range.start)).split(period());
+        let second_range = 0..second_range.end - period();
         std::cmp::min(self.lower_bound_in_included(first_range), self.lower_bound_in_included(second_range))
     }
 
@@ -98,31 +102,35 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return const_tt;
         }
 
-        let (first_range, mut second_range) = range.split(period());
-        second_range.start %= period();
-        second_range.end %= period();
+        if range.end.saturating_sub(range.start) >= period() {
+            return self.upper_bound();
+        }
+
+        let start = range.start % period();
+        let (first_range, second_range) = (start..start + range.end.saturating_sub(range.start)).split(period());
+        let second_range = 0..second_range.end - period();
         std::cmp::max(self.upper_bound_in_included(first_range), self.upper_bound_in_included(second_range))
     }
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
-        let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (first_idx, first_upper) = match self.departure_time.locate(range.start, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
-        let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+        let (last_idx, last_upper) = match self.departure_time.locate(range.end, |&dt| dt) {
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
         self.travel_time[first_idx..=last_idx]
             .iter()
             .copied()
-            .chain(std::iter::once(first_lower))
-            .chain(std::iter::once(last_lower))
+            .chain(std::iter::once(first_upper))
+            .chain(std::iter::once(last_upper))
             .max()
             .unwrap()
     }
-- 
2.43.0


From 5131965cb753a6e38a915c84256541fe0f8eb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:20 +0000
Subject: [PATCH 20/51] fix: average of travel time functions over windows
 around midnight

---
 .../datastr/graph/time_dependent/piecewise_linear_function.rs    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index aee0518..2667595 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -37,6 +37,7 @@ impl<'a> PiecewiseLinearFunction<'a> {
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
         let (first_range, second_range) = monotone_range.split(period());
+        let second_range = 0..second_range.end - period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-- 
2.43.0


From 2a911b9cb76dfb5fe44f2f6b082badeb74d71a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 21/51] fix: lower bound of live travel times considers the
 time before the live value expires

---
 engine/src/datastr/graph/time_dependent/graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..61cc534 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,8 +426,12 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
-            if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+            if until > soon {
+                // before `soon` the live value or the prediction may be lower than anything after `soon`
+                std::cmp::max(
+                    ttf.lower_bound_in_range(now..until),
+                    std::cmp::min(live, ttf.lower_bound_in_range(std::cmp::max(now, soon)..until)),
+                )
             } else {
                 let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
-- 
2.43.0


From 7e2eadcfeb3868745d6330c54e048dbf4c1aa7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:56 +0000
Subject: [PATCH 22/51] fix: heap ignores key updates in the wrong direction as
 documented

---
 engine/src/datastr/index_heap.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 119de46..5413ec1 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -149,16 +149,20 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     // Does nothing if the new key is larger.
     pub fn decrease_key(&mut self, element: T) {
         let position = self.positions[element.as_index()];
-        self.data[position] = element;
-        self.move_up_in_tree(position);
+        if element < self.data[position] {
+            self.data[position] = element;
+            self.move_up_in_tree(position);
+        }
     }
 
     // Updates the key of an element if the new key is larger than the old key.
     // Does nothing if the new key is smaller.
     pub fn increase_key(&mut self, element: T) {
         let position = self.positions[element.as_index()];
-        self.data[position] = element;
-        self.move_down_in_tree(position);
+        if element > self.data[position] {
+            self.data[position] = element;
+            self.move_down_in_tree(position);
+        }
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-- 
2.43.0


From 4e8f34fc59006af605744a1cedf30b484dbbb9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:56 +0000
Subject: [PATCH 23/51] fix: BitVec::set_all does not set bits beyond the size

---
 engine/src/datastr/rank_select_map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..c1d645e 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -91,6 +91,10 @@ impl BitVec {
         for val in &mut self.data {
             *val = !0;
         }
+        // the bits beyond the size have to stay zero
+        if self.size % STORAGE_BITS != 0 {
+            *self.data.last_mut().unwrap() = (1 << (self.size % STORAGE_BITS)) - 1;
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From 5cdcd372fac477173bc3fe250b6a898fec571fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 24/51] fix: heap drain forgets the positions of elements which
 were not consumed

---
 engine/src/datastr/index_heap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 5413ec1..2e15531 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -166,7 +166,11 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-        self.data.drain(..).inspect(|item| self.positions[item.as_index()] = INVALID_POSITION)
+        // up front, because the iterator might not be consumed completely
+        for element in &self.data {
+            self.positions[element.as_index()] = INVALID_POSITION;
+        }
+        self.data.drain(..)
     }
 
     fn move_up_in_tree(&mut self, mut position: usize) {
-- 
2.43.0


From e9404d68a4c0e9d4bfa7dbbdee7ef41578389982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 25/51] fix: inverse of rank select map with cache lines
 without any keys

---
 engine/src/datastr/rank_select_map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index c1d645e..08c3346 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -334,10 +334,9 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // the last block with a prefix sum of at most `value`, blocks without any elements have the same prefix sum as their successor
+        let prefix_sums = &self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]];
+        let block_index = prefix_sums.partition_point(|&prefix_sum| prefix_sum <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From 824bdf1882261809d518f7844ed46c67d231915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 26/51] fix: reverse graphs which filter some of their links

---
 engine/src/datastr/graph/first_out_graph.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/first_out_graph.rs b/engine/src/datastr/graph/first_out_graph.rs
index eab7310..66bb5e5 100644
--- a/engine/src/datastr/graph/first_out_graph.rs
+++ b/engine/src/datastr/graph/first_out_graph.rs
@@ -141,8 +141,9 @@ impl<G: LinkIterable<Link>> BuildReversed<G> for OwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut weights = vec![0; graph.num_arcs()];
+        // the graph may filter its links, so `num_arcs` is only an upper bound for the number of links
+        let mut head = vec![0; prefix_sum as usize];
+        let mut weights = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -503,7 +504,8 @@ impl<G: LinkIterable<NodeIdT>> BuildReversed<G> for UnweightedOwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
+        // the graph may filter its links, so `num_arcs` is only an upper bound for the number of links
+        let mut head = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
-- 
2.43.0


From 581ee5015dd48ae057e0fef450bac57b9ac58a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 27/51] fix: time-dependent Dijkstra server reports travel
 times like all other servers

---
 engine/src/algo/dijkstra/query/dijkstra.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/dijkstra/query/dijkstra.rs b/engine/src/algo/dijkstra/query/dijkstra.rs
index 7d064a4..192ef91 100644
--- a/engine/src/algo/dijkstra/query/dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/dijkstra.rs
@@ -185,6 +185,7 @@ impl<G: LinkIterable<O::Arc>, O: DijkstraOps<G, Label = Weight> + Default, P: Po
     type P<'s> = PathServerWrapper<'s, TDQuery<Timestamp>, G, O, P, B> where Self: 's;
 
     fn td_query(&mut self, query: TDQuery<Timestamp>) -> QueryResult<Self::P<'_>, Weight> {
-        QueryResult::new(self.distance(query), PathServerWrapper(self, query))
+        // the distances of the search are arrival times
+        QueryResult::new(self.distance(query).map(|arrival| arrival - query.departure), PathServerWrapper(self, query))
     }
 }
-- 
2.43.0


From 23e7667a1db78c39e88390fc820192f988a9bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 28/51] fix: time-dependent topology query does not rely on
 consistent potentials at the border of the core

---
 engine/src/algo/ch_potentials/td_query.rs     | 131 ++++++------------
 engine/src/algo/dijkstra/gen_topo_dijkstra.rs |  13 ++
 2 files changed, 59 insertions(+), 85 deletions(-)

diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 73f6de1..c2a1ded 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -106,107 +106,68 @@ where
         potential.init(query.from(), query.to(), departure);
         report!("lower_bound", potential.potential(query.from(), Some(departure)).unwrap_or(INFINITY));
 
-        let (into_core, out_of_core) = if virtual_topocore.in_same_component(query.from(), query.to()) {
-            // the core is of no use, the component search has to find the target on its own
-            (query.to(), query.to())
-        } else {
-            (
-                virtual_topocore.bridge_node(query.from()).unwrap_or(query.from()),
-                virtual_topocore.bridge_node(query.to()).unwrap_or(query.to()),
-            )
-        };
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
-
-        let mut comp_search = TopoDijkstraRun::query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            DijkstraInit::from_query(&query),
-        );
+        // if both terminals are in the same component, the core is of no use
+        let same_component = virtual_topocore.in_same_component(query.from(), query.to());
+        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
+        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
 
-        while query.from() != into_core {
-            let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) else { break };
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
+        let data = &mut self.core_search.dijkstra_data;
+        let ops = &mut self.core_search.ops;
+        let mut pushs = 0;
+        let mut relaxed = 0;
 
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
-                .unwrap_or(true)
-            {
+        TopoDijkstraRun::<_, _, SKIP_DEG_2, SKIP_DEG_3>::query(&self.comp_graph, data, ops, DijkstraInit::from_query(&query));
+
+        // Time-dependent potentials are feasible but not necessarily consistent.
+        // So the distances of the nodes where we enter and leave the core are only final once the target is reached.
+        // Thus, a single search has to alternate between the graphs.
+        let mut bridges = [into_core, out_of_core].map(|node| (node, if node == query.from() { departure } else { INFINITY }));
+
+        while let Some(&State { key, node }) = data.queue.peek() {
+            if key >= data.distances[query.to() as usize] {
                 break;
             }
-        }
+            num_queue_pops += 1;
 
-        let mut pushs = comp_search.num_queue_pushs();
-        let mut relaxed = comp_search.num_relaxed_arcs();
-
-        let core_dist = {
-            let capture = capture_reporting();
-            let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
-            let mut core_search = TopoDijkstraRun::continue_query(
-                &self.core_search.graph,
-                &mut self.core_search.dijkstra_data,
-                &mut self.core_search.ops,
-                into_core,
-            );
-            let res = SkipLowDegServer::distance_manually_initialized(
-                &mut core_search,
-                core_query,
-                potential,
-                |n, d, p| inspect(n, &virtual_topocore.order, d, p),
-                INFINITY,
-            );
+            let search_core = !same_component && virtual_topocore.node_type(node).in_core();
+            let search_comp = !search_core || (node == out_of_core && node != query.to());
 
-            if let Some(reported) = capture.reported() {
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pops") {
-                    if let Some(num) = number.as_u64() {
-                        num_queue_pops += num as usize;
-                    }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pushs") {
-                    if let Some(num) = number.as_u64() {
-                        pushs += num as usize;
-                    }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_relaxed_arcs") {
-                    if let Some(num) = number.as_u64() {
-                        relaxed += num as usize;
+            for (graph, search) in [(&self.core_search.graph, search_core), (&self.comp_graph, search_comp)] {
+                if search {
+                    if !data.queue.contains_index(State { key, node }.as_index()) {
+                        data.queue.push(State { key, node });
                     }
+                    let mut run = TopoDijkstraRun::resume_query(graph, data, ops);
+                    run.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist)));
+                    inspect(node, &virtual_topocore.order, &run, potential);
+                    pushs += run.num_queue_pushs();
+                    relaxed += run.num_relaxed_arcs();
                 }
             }
 
-            res
-        };
-
-        let mut comp_search = TopoDijkstraRun::continue_query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            if core_dist.is_some() { out_of_core } else { query.from() },
-        );
-
-        while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
-
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(query.to()))
-                .unwrap_or(true)
-            {
-                break;
+            // chains may skip nodes from where the search has to continue in the other graph
+            for (node, dist) in &mut bridges {
+                if data.distances[*node as usize] < *dist {
+                    *dist = data.distances[*node as usize];
+                    if let Some(pot) = potential.potential(*node, Some(*dist)) {
+                        let state = State { key: pot + *dist, node: *node };
+                        if data.queue.contains_index(state.as_index()) {
+                            data.queue.decrease_key(state);
+                        } else {
+                            pushs += 1;
+                            data.queue.push(state);
+                        }
+                    }
+                }
             }
         }
 
         report!("num_queue_pops", num_queue_pops);
-        report!("num_queue_pushs", pushs + comp_search.num_queue_pushs());
-        report!("num_relaxed_arcs", relaxed + comp_search.num_relaxed_arcs());
+        report!("num_queue_pushs", pushs);
+        report!("num_relaxed_arcs", relaxed);
         potential.report_stats();
 
-        let dist = *comp_search.tentative_distance(query.to());
+        let dist = data.distances[query.to() as usize];
         if dist < INFINITY {
             Some(dist - departure)
         } else {
diff --git a/engine/src/algo/dijkstra/gen_topo_dijkstra.rs b/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
index 3c92969..9809369 100644
--- a/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
+++ b/engine/src/algo/dijkstra/gen_topo_dijkstra.rs
@@ -51,6 +51,19 @@ where
         s
     }
 
+    /// Continue with everything that is currently in the queue, but possibly on a different graph.
+    pub fn resume_query(graph: &'b Graph, data: &'b mut DijkstraData<Ops::Label, Ops::PredecessorLink>, ops: &'b mut Ops) -> Self {
+        Self {
+            graph,
+            ops,
+            predecessors: &mut data.predecessors,
+            queue: &mut data.queue,
+            distances: &mut data.distances,
+            num_relaxed_arcs: 0,
+            num_queue_pushs: 0,
+        }
+    }
+
     fn initialize(&mut self, init: DijkstraInit<Ops::Label>) {
         self.queue.clear();
         self.distances.reset();
-- 
2.43.0


From 6072f6249195284bc1fa3bbfa037d035d9a09f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 29/51] fix: interval minimum potentials with live traffic
 account for predicted detours

---
 engine/src/algo/td_astar.rs | 55 +++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index 602dd26..7d1338e 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -617,6 +617,8 @@ pub trait TDBounds: Copy {
     fn lower(&self) -> Weight;
     fn td_upper(&self, t: Timestamp) -> Weight;
     fn pessimistic_upper(&self) -> Weight;
+    /// Until when does a node, reached after at most `upper`, have to be considered when the target is reached after at most `global_upper`?
+    fn latest_relevant(upper: Weight, global_upper: Weight) -> Weight;
 }
 
 impl TDBounds for (Weight, Weight) {
@@ -629,6 +631,9 @@ impl TDBounds for (Weight, Weight) {
     fn pessimistic_upper(&self) -> Weight {
         self.1
     }
+    fn latest_relevant(upper: Weight, global_upper: Weight) -> Weight {
+        min(upper, global_upper)
+    }
 }
 
 #[derive(Debug, Clone, Copy, Default)]
@@ -654,6 +659,14 @@ impl TDBounds for LiveToPredictedBounds {
         debug_assert!(self.live_upper >= self.predicted_upper);
         self.live_upper
     }
+    fn latest_relevant(upper: Weight, global_upper: Weight) -> Weight {
+        if global_upper >= INFINITY {
+            return upper;
+        }
+        // The shortest path with live traffic may contain arcs that were removed because, according to the prediction, there are better detours.
+        // These detours may use nodes long after they can be reached.
+        global_upper
+    }
 }
 
 // Careful, this one works in reversed direction compared to most of the other CH-Pots
@@ -834,10 +847,12 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             catchup.bucket_to_metric,
         )
     }
+}
 
+impl<'a> IntervalMinPotential<'a, LiveToPredictedBounds> {
     pub fn new_for_simple_live(
         cch: &'a CCH,
-        mut catchup: customizable_contraction_hierarchy::customization::ftd_for_pot::PotData,
+        catchup: customizable_contraction_hierarchy::customization::ftd_for_pot::PotData,
         live_graph: &PessimisticLiveTDGraph,
         t_live: Timestamp,
     ) -> Self {
@@ -854,25 +869,25 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             customized
         };
 
-        catchup
-            .fw_static_bound
-            .par_iter_mut()
-            .zip(customized_live.forward_graph().weight())
-            .for_each(|((_, pred_upper), live_upper)| {
-                *pred_upper = *live_upper;
-            });
-        catchup
-            .bw_static_bound
-            .par_iter_mut()
-            .zip(customized_live.backward_graph().weight())
-            .for_each(|((_, pred_upper), live_upper)| {
-                *pred_upper = *live_upper;
-            });
+        let bounds = |static_bounds: Vec<(Weight, Weight)>, live_upper: &[Weight]| {
+            static_bounds
+                .into_iter()
+                .zip(live_upper)
+                .map(|((lower, _), &upper)| LiveToPredictedBounds {
+                    lower,
+                    live_upper: upper,
+                    predicted_upper: upper,
+                    predicted_valid_from: 0,
+                })
+                .collect()
+        };
+        let fw_bounds = bounds(catchup.fw_static_bound, customized_live.forward_graph().weight());
+        let bw_bounds = bounds(catchup.bw_static_bound, customized_live.backward_graph().weight());
 
         Self::new_int(
             cch,
-            catchup.fw_static_bound,
-            catchup.bw_static_bound,
+            fw_bounds,
+            bw_bounds,
             catchup.fw_bucket_bounds,
             catchup.bw_bucket_bounds,
             catchup.fw_required,
@@ -880,9 +895,7 @@ impl<'a> IntervalMinPotential<'a, (Weight, Weight)> {
             catchup.bucket_to_metric,
         )
     }
-}
 
-impl<'a> IntervalMinPotential<'a, LiveToPredictedBounds> {
     pub fn new_for_live(
         cch: &'a CCH,
         mut catchup: customizable_contraction_hierarchy::customization::ftd_for_pot::PotData,
@@ -1430,7 +1443,7 @@ impl<W: TDBounds> TDPotential for IntervalMinPotential<'_, W> {
                 for (NodeIdT(head), EdgeIdT(edge_id)) in LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&self.bw_graph, current) {
                     if let Some((lower, upper)) = self.minmax_pot.potential(head) {
                         if lower <= self.global_upper {
-                            let metric_indices = self.to_bucket_idx(departure + lower)..=self.to_bucket_idx(departure + upper);
+                            let metric_indices = self.to_bucket_idx(departure + lower)..=self.to_bucket_idx(departure + W::latest_relevant(upper, self.global_upper));
                             let mut weight_lower = INFINITY;
                             for idx in metric_indices {
                                 weight_lower = min(weight_lower, self.bw_bucket_slice(idx)[edge_id as usize]);
@@ -1484,7 +1497,7 @@ impl<W: TDBounds> TDPotential for IntervalMinPotential<'_, W> {
                     earliest_metric_idx = max(lower_bound_metric_idx, min_metric_idx);
                     let latest_metric_idx = current_pot
                         .map(|(_, prev_lowest_idx)| prev_lowest_idx as usize)
-                        .unwrap_or_else(|| self.to_bucket_idx(self.departure + min(upper, self.global_upper)) + 1);
+                        .unwrap_or_else(|| self.to_bucket_idx(self.departure + W::latest_relevant(upper, self.global_upper)) + 1);
                     let metric_indices = earliest_metric_idx..latest_metric_idx;
 
                     for idx in metric_indices {
-- 
2.43.0


From 451c7749eb8c6d936f3ecc47b9cf4bb1dfef2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 30/51] fix: inverse evaluation of floating travel time
 functions after the first day

---
 .../piecewise_linear_function.rs              | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..f12f33a 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -104,19 +104,20 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
             }
         });
 
-        p + match pos {
-            Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
-            Err(i) => {
-                let prev = unsafe { self.ipps.get_unchecked(i - 1) };
-                let next = unsafe { self.ipps.get_unchecked(i) };
-
-                let prev_art = prev.at + prev.val;
-                let next_art = next.at + next.val;
-
-                let frac = (t - prev_art) / (next_art - prev_art);
-                prev.at + (next.at - prev.at) * frac
+        p * FlWeight::from(period())
+            + match pos {
+                Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
+                Err(i) => {
+                    let prev = unsafe { self.ipps.get_unchecked(i - 1) };
+                    let next = unsafe { self.ipps.get_unchecked(i) };
+
+                    let prev_art = prev.at + prev.val;
+                    let next_art = next.at + next.val;
+
+                    let frac = (t - prev_art) / (next_art - prev_art);
+                    prev.at + (next.at - prev.at) * frac
+                }
             }
-        }
     }
 }
 
-- 
2.43.0


From 33f1a04084781630c8ca3ab8d75e217481456779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 31/51] fix: assertions for merged functions which are constant

---
 .../floating_time_dependent/piecewise_linear_function.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index f12f33a..2c1afc8 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1163,9 +1163,12 @@ impl<'a> PartialPiecewiseLinearFunction<'a> {
             );
         }
         debug_assert!(!start.fuzzy_lt(result[0].at));
-        debug_assert!(start.fuzzy_lt(result[1].at));
-        debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
-        debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        // constant functions consist of a single point
+        if !FullRange::VALUE || result.len() > 1 {
+            debug_assert!(start.fuzzy_lt(result[1].at));
+            debug_assert!(!result[result.len() - 1].at.fuzzy_lt(end));
+            debug_assert!(result[result.len() - 2].at.fuzzy_lt(end));
+        }
 
         let ret = (Box::from(&result[..]), better);
         result.clear();
-- 
2.43.0


From 6388908d90134068213699e379a23887916bb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 32/51] fix: evaluation of functions without live traffic

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 2c1afc8..4735fe3 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1763,7 +1763,7 @@ impl<'a> UpdatedPiecewiseLinearFunction<'a> {
 
 impl<'a> PLF for UpdatedPiecewiseLinearFunction<'a> {
     fn evaluate(&self, t: Timestamp) -> FlWeight {
-        debug_assert!(!t.fuzzy_lt(self.update[0].at));
+        debug_assert!(!self.update.first().map(|p| t.fuzzy_lt(p.at)).unwrap_or(false));
         if self.update.last().map(|p| t <= p.at).unwrap_or(false) {
             PartialPiecewiseLinearFunction::new(self.update).eval(t)
         } else {
-- 
2.43.0


From 0f3331b70f151ea1c8ddb900a59125b7b7709b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:52 +0000
Subject: [PATCH 33/51] fix: rounding in the CATCHUp elimination tree search
 must not prune the shortest path

---
 engine/src/algo/catchup.rs                  | 4 ++--
 engine/src/algo/catchup/partial_profiles.rs | 4 ++--
 engine/src/algo/catchup/profiles.rs         | 4 ++--
 engine/src/algo/catchup/profiles_naive.rs   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 56cdc1b..68d2aa4 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -145,7 +145,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -185,7 +185,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index a726bbd..8a7bec8 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -154,7 +154,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -189,7 +189,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles.rs b/engine/src/algo/catchup/profiles.rs
index 730eb39..29c8ec0 100644
--- a/engine/src/algo/catchup/profiles.rs
+++ b/engine/src/algo/catchup/profiles.rs
@@ -151,7 +151,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -186,7 +186,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..70de92f 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -151,7 +151,7 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -191,7 +191,7 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                if tentative_distance.1.fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound) {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
-- 
2.43.0


From 0631764ecc0fa88f41304de5a4ab813500fcbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 34/51] fix: bounds of dominated shortcuts may contradict each
 other during the CATCHUp search

---
 engine/src/algo/catchup.rs                  | 5 +++--
 engine/src/algo/catchup/partial_profiles.rs | 5 +++--
 engine/src/algo/catchup/profiles.rs         | 5 +++--
 engine/src/algo/catchup/profiles_naive.rs   | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 68d2aa4..25ede2c 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -172,7 +172,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -206,7 +205,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -215,6 +213,9 @@ impl<'a> Server<'a> {
             }
         }
 
+        // required shortcuts which are dominated at all times may have bounds which contradict each other, so this only holds at the end
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         if cfg!(feature = "detailed-stats") {
             report!("num_nodes_in_elimination_tree_search_space", nodes_in_elimination_tree_search_space);
             report!("num_relaxed_elimination_tree_arcs", relaxed_elimination_tree_arcs);
diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index 8a7bec8..0dc1cf2 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -176,7 +176,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -210,7 +209,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -219,6 +217,9 @@ impl<'a> Server<'a> {
             }
         }
 
+        // required shortcuts which are dominated at all times may have bounds which contradict each other, so this only holds at the end
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         if cfg!(feature = "detailed-stats") {
             report!("num_nodes_in_elimination_tree_search_space", nodes_in_elimination_tree_search_space);
             report!("num_relaxed_elimination_tree_arcs", relaxed_elimination_tree_arcs);
diff --git a/engine/src/algo/catchup/profiles.rs b/engine/src/algo/catchup/profiles.rs
index 29c8ec0..14619c1 100644
--- a/engine/src/algo/catchup/profiles.rs
+++ b/engine/src/algo/catchup/profiles.rs
@@ -173,7 +173,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -207,7 +206,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -216,6 +214,9 @@ impl<'a> Server<'a> {
             }
         }
 
+        // required shortcuts which are dominated at all times may have bounds which contradict each other, so this only holds at the end
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         if cfg!(feature = "detailed-stats") {
             report!("num_nodes_in_elimination_tree_search_space", nodes_in_elimination_tree_search_space);
             report!("num_relaxed_elimination_tree_arcs", relaxed_elimination_tree_arcs);
diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 70de92f..fba1996 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -178,7 +178,6 @@ impl<'a> Server<'a> {
                     if !tentative_distance.1.fuzzy_lt(lower_bound) {
                         tentative_distance.0 = min(tentative_distance.0, lower_bound);
                         tentative_distance.1 = min(tentative_distance.1, upper_bound);
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -212,7 +211,6 @@ impl<'a> Server<'a> {
                             tentative_distance.1,
                             self.forward.node_data(node).upper_bound + self.backward.node_data(node).upper_bound,
                         );
-                        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
                         self.meeting_nodes.push((node, lower_bound));
                     }
                 } else {
@@ -221,6 +219,9 @@ impl<'a> Server<'a> {
             }
         }
 
+        // required shortcuts which are dominated at all times may have bounds which contradict each other, so this only holds at the end
+        debug_assert!(!tentative_distance.1.fuzzy_lt(tentative_distance.0), "{:?}", tentative_distance);
+
         if cfg!(feature = "detailed-stats") {
             report!("num_nodes_in_elimination_tree_search_space", nodes_in_elimination_tree_search_space);
             report!("num_relaxed_elimination_tree_arcs", relaxed_elimination_tree_arcs);
-- 
2.43.0


From 8b8c2443a8f76f2acff4bf5d933268f0567421d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 35/51] fix: lazy CATCHUp query missed arcs of nodes settled
 too early

---
 engine/src/algo/catchup.rs | 72 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 25ede2c..f7ec27a 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -53,6 +53,12 @@ pub struct Server<'a> {
     closest_node_priority_queue: IndexdMinHeap<State<Timestamp>>,
     // Bitset to mark all (upward) edges in the search space
     relevant_upward: FastClearBitVec,
+    // (Upward) edges marked during the current relaxation
+    marked_upward: Vec<EdgeId>,
+    // Lower bound to target of the head when the (upward) edge was last considered
+    relaxed_lower_bounds: ClearlistVector<FlWeight>,
+    // Bitset to mark all nodes which were settled at least once
+    settled: FastClearBitVec,
 
     from: NodeId,
     to: NodeId,
@@ -77,6 +83,9 @@ impl<'a> Server<'a> {
             backward_tree_mask: BitVec::new(n),
             closest_node_priority_queue: IndexdMinHeap::new(n),
             relevant_upward: FastClearBitVec::new(m),
+            marked_upward: Vec::new(),
+            relaxed_lower_bounds: ClearlistVector::new(m, FlWeight::INFINITY),
+            settled: FastClearBitVec::new(n),
             from: 0,
             to: 0,
         }
@@ -105,6 +114,8 @@ impl<'a> Server<'a> {
         self.backward.initialize_query(self.to);
         self.closest_node_priority_queue.clear();
         self.relevant_upward.clear();
+        self.relaxed_lower_bounds.reset();
+        self.settled.clear();
 
         self.forward_tree_path.clear();
         self.backward_tree_path.clear();
@@ -309,6 +320,7 @@ impl<'a> Server<'a> {
         let forward_select_time = timer.get_passed();
 
         let relevant_upward = &mut self.relevant_upward;
+        let marked_upward = &mut self.marked_upward;
         // debug_assert!(
         //     tentative_distance.0.fuzzy_eq(self.lower_bounds_to_target[self.from as usize]),
         //     "{:?}",
@@ -333,6 +345,7 @@ impl<'a> Server<'a> {
             }
 
             let distance = self.distances[node as usize];
+            self.settled.set(node as usize);
 
             if node == self.to {
                 break;
@@ -352,6 +365,7 @@ impl<'a> Server<'a> {
                     }
 
                     let lower_bound_target = lower_bounds_to_target[target as usize];
+                    self.relaxed_lower_bounds[shortcut_id as usize] = lower_bound_target;
 
                     let (time, next_on_path, evaled_edge_id) = if cfg!(feature = "tdcch-query-lazy") {
                         // partially relax the edge
@@ -368,7 +382,10 @@ impl<'a> Server<'a> {
                                 lower_bound_target,
                                 self.customized_graph,
                                 lower_bounds_to_target,
-                                &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                &mut |edge_id| {
+                                    relevant_upward.set(edge_id as usize);
+                                    marked_upward.push(edge_id);
+                                },
                             )
                             .unwrap()
                     } else {
@@ -408,6 +425,30 @@ impl<'a> Server<'a> {
                             self.closest_node_priority_queue.decrease_key(next);
                         }
                     }
+
+                    // When there are several shortest paths, nodes may be settled before their edges become relevant (or before better lower bounds are known).
+                    // We have to consider these nodes again.
+                    for edge_id in marked_upward.drain(..) {
+                        let tail = self.customized_graph.outgoing.tail()[edge_id as usize];
+                        let head = self.customized_graph.outgoing.head()[edge_id as usize];
+                        let lower = if cfg!(feature = "tdcch-query-astar") {
+                            lower_bounds_to_target[tail as usize]
+                        } else {
+                            FlWeight::ZERO
+                        };
+                        let state = State {
+                            key: self.distances[tail as usize] + lower,
+                            node: tail,
+                        };
+
+                        if let Some(label) = self.closest_node_priority_queue.get(state.as_index()) {
+                            if state < *label {
+                                self.closest_node_priority_queue.decrease_key(state);
+                            }
+                        } else if self.settled.get(tail as usize) && lower_bounds_to_target[head as usize] < self.relaxed_lower_bounds[edge_id as usize] {
+                            self.closest_node_priority_queue.push(state);
+                        }
+                    }
                 }
             }
 
@@ -443,7 +484,10 @@ impl<'a> Server<'a> {
                                     lower_bound_target,
                                     self.customized_graph,
                                     lower_bounds_to_target,
-                                    &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                    &mut |edge_id| {
+                                        relevant_upward.set(edge_id as usize);
+                                        marked_upward.push(edge_id);
+                                    },
                                 )
                                 .unwrap()
                         } else {
@@ -483,6 +527,30 @@ impl<'a> Server<'a> {
                                 self.closest_node_priority_queue.decrease_key(next);
                             }
                         }
+
+                        // When there are several shortest paths, nodes may be settled before their edges become relevant (or before better lower bounds are known).
+                        // We have to consider these nodes again.
+                        for edge_id in marked_upward.drain(..) {
+                            let tail = self.customized_graph.outgoing.tail()[edge_id as usize];
+                            let head = self.customized_graph.outgoing.head()[edge_id as usize];
+                            let lower = if cfg!(feature = "tdcch-query-astar") {
+                                lower_bounds_to_target[tail as usize]
+                            } else {
+                                FlWeight::ZERO
+                            };
+                            let state = State {
+                                key: self.distances[tail as usize] + lower,
+                                node: tail,
+                            };
+
+                            if let Some(label) = self.closest_node_priority_queue.get(state.as_index()) {
+                                if state < *label {
+                                    self.closest_node_priority_queue.decrease_key(state);
+                                }
+                            } else if self.settled.get(tail as usize) && lower_bounds_to_target[head as usize] < self.relaxed_lower_bounds[edge_id as usize] {
+                                self.closest_node_priority_queue.push(state);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 40651d2332b44cca5fe2b68f5393b8d171cd0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 36/51] fix: assertions of the naive profile search for
 unreachable targets

---
 engine/src/algo/catchup/profiles_naive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index fba1996..3d16625 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -312,12 +312,12 @@ impl<'a> Server<'a> {
 
         let relevant_upward = &mut self.relevant_upward;
         debug_assert!(
-            tentative_distance.0.fuzzy_eq(self.lower_bounds_to_target[self.from as usize]),
+            tentative_distance.0.fuzzy_eq(self.lower_bounds_to_target[self.from as usize]) || tentative_distance.0.fuzzy_eq(FlWeight::INFINITY),
             "{:?}",
             dbg_each!(tentative_distance, self.lower_bounds_to_target[self.from as usize])
         );
         debug_assert!(
-            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]),
+            FlWeight::ZERO.fuzzy_eq(self.lower_bounds_to_target[self.to as usize]) || tentative_distance.0.fuzzy_eq(FlWeight::INFINITY),
             "{:?}",
             dbg_each!(self.lower_bounds_to_target[self.to as usize])
         );
-- 
2.43.0


From f321d188c1d87d7f0f7805e26edfa90f8b177f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 37/51] fix: travel time of merged switch points belongs to the
 earlier time

---
 .../datastr/graph/floating_time_dependent/shortcut_source.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
index 2a2b062..8fd0dc6 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
@@ -554,8 +554,8 @@ impl Sources for [(Timestamp, ShortcutSourceData)] {
                 ShortcutSource::from(c.cur().1).get_switchpoints(max(start, c.cur().0), min(end, c.next().0), shortcut_graph);
 
             if switchpoints.last().unwrap().1 == cur_switchpoints.first().unwrap().1 {
-                cur_switchpoints.first_mut().unwrap().0 = switchpoints.last().unwrap().0;
-                switchpoints.pop();
+                // same path as before, so keep the earlier begin and the travel time there
+                *cur_switchpoints.first_mut().unwrap() = switchpoints.pop().unwrap();
             }
             switchpoints.append(&mut cur_switchpoints);
             last_weight = end_weight;
-- 
2.43.0


From 1ac9f7b3db443e732af11a0a8ffcf2fcc5e85daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 38/51] fix: alternatives_iterative returned node ids of the
 reordered graph

Translate the nodes of all alternatives back to the ids of the input graph,
as PenaltyIterative does.
---
 engine/src/algo/ch_potentials/penalty.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..6eaef88 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -452,6 +452,10 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                 }
             }
 
+            for node in alternatives.iter_mut().flatten() {
+                *node = self.virtual_topocore.order.node(*node);
+            }
+
             Some(alternatives)
         } else {
             None
-- 
2.43.0


From 897bee0c332129fc908559a93541ac79df263c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 39/51] fix: contexts and collections nested in captured
 reports panicked

Opening a context in a captured report left the capture as current object and
closing contexts and collections did not expect a capture as parent.
---
 engine/src/report.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/engine/src/report.rs b/engine/src/report.rs
index 682c795..beaff43 100644
--- a/engine/src/report.rs
+++ b/engine/src/report.rs
@@ -80,6 +80,7 @@ impl Reporter {
                 swap(&mut tmp, object);
                 self.context_stack.push(ContextStackItem::Capture(tmp));
                 self.context_stack.push(ContextStackItem::Key(key));
+                self.current = CurrentReportingContext::Object(BTreeMap::new());
             }
             CurrentReportingContext::Collection(_) => {
                 panic!("Cannot create object at key in collection");
@@ -204,24 +205,30 @@ impl Reporter {
             ContextStackItem::Key(key) => {
                 let parent = self.context_stack.pop().expect("tried to pop from empty context");
 
-                if let ContextStackItem::Object(mut object) = parent {
-                    let mut prev_current = CurrentReportingContext::Object(Default::default());
-                    swap(&mut self.current, &mut prev_current);
-
-                    let prev = match prev_current {
-                        CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
-                        CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
-                        CurrentReportingContext::Throwaway => None,
-                        CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
-                    };
-                    if !cfg!(feature = "report-allow-override") {
-                        assert!(prev.is_none());
-                    }
+                let (mut object, captured) = match parent {
+                    ContextStackItem::Object(object) => (object, false),
+                    ContextStackItem::Capture(object) => (object, true),
+                    _ => panic!("Inconsistent context stack"),
+                };
 
-                    self.current = CurrentReportingContext::Object(object);
-                } else {
-                    panic!("Inconsistent context stack");
+                let mut prev_current = CurrentReportingContext::Object(Default::default());
+                swap(&mut self.current, &mut prev_current);
+
+                let prev = match prev_current {
+                    CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
+                    CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
+                    CurrentReportingContext::Throwaway => None,
+                    CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
+                };
+                if !cfg!(feature = "report-allow-override") {
+                    assert!(prev.is_none());
                 }
+
+                self.current = if captured {
+                    CurrentReportingContext::Capture(object)
+                } else {
+                    CurrentReportingContext::Object(object)
+                };
             }
             ContextStackItem::Collection(mut collection) => {
                 let mut prev_current = CurrentReportingContext::Object(Default::default());
-- 
2.43.0


From d35af7d330608a6482a0f38a4d1ba93d54b1e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 40/51] fix: debug assertion for links in to-ref direction
 compared the wrong arc

---
 conversion/src/here/link_id_mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/here/link_id_mapper.rs b/conversion/src/here/link_id_mapper.rs
index a2a1c4b..55dfbab 100644
--- a/conversion/src/here/link_id_mapper.rs
+++ b/conversion/src/here/link_id_mapper.rs
@@ -49,7 +49,7 @@ impl LinkIdMapper {
         let direction = if self.here_rank_to_link_id[rank].0.value() == Some(link_id) {
             LinkDirection::FromRef
         } else {
-            debug_assert_eq!(self.here_rank_to_link_id[rank].0.value(), Some(link_id));
+            debug_assert_eq!(self.here_rank_to_link_id[rank].1.value(), Some(link_id));
             LinkDirection::ToRef
         };
         (here_link_id, direction)
-- 
2.43.0


From 2044d9c716b3bb985a88843f371cb329e2905a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 41/51] fix: queries with non existing links or huge fractions
 ended the routing engine of the server

The panic of the engine thread (and of the request handler, which poisoned the
lock of the channel) made all later requests fail, too. As documented, only the
query with the non existing link is answered with status 500.
---
 server/src/main.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 49534ba..1ee52b5 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -16,7 +16,7 @@ use std::{
     thread,
 };
 
-use rocket::{request::Form, response::NamedFile, State};
+use rocket::{http::Status, request::Form, response::NamedFile, State};
 use rocket_contrib::json::Json;
 
 use kdtree::kdtree::{Kdtree, KdtreePointTrait};
@@ -113,7 +113,7 @@ fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) ->
 }
 
 #[get("/here_query?<query_params..>", format = "application/json")]
-fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Json<Option<HereResponse>> {
+fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Result<Json<Option<HereResponse>>, Status> {
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
@@ -121,11 +121,12 @@ fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>
         let (tx_result, rx_result) = mpsc::channel::<Option<HereResponse>>();
 
         tx_query.send(Request::Here((*query_params, tx_result))).unwrap();
-        rx_result.recv().expect("routing engine crashed or hung up")
+        // the engine does not answer queries with non existing links
+        rx_result.recv().map_err(|_| Status::InternalServerError)
     });
 
     println!();
-    Json(result)
+    result.map(Json)
 }
 
 #[derive(Debug)]
@@ -261,21 +262,29 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result,
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
+                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                        let (from_link_local_id, to_link_local_id) = match (
+                            id_mapper.here_to_local_link_id(from_link_id, from_link_direction),
+                            id_mapper.here_to_local_link_id(to_link_id, to_link_direction),
+                        ) {
+                            (Some(from_link_local_id), Some(to_link_local_id)) => (from_link_local_id, to_link_local_id),
+                            // Non existing link. Dropping `tx_result` without an answer signals the error.
+                            _ => continue,
+                        };
+
                         let from_link = graph.link(from_link_local_id);
                         let from = from_link.node;
 
-                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
                         let mut server = server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
-                                let distance = result.distance()
-                                    + (from_link_fraction * from_link.weight as f32) as u32
-                                    + (to_link_fraction * to_link.weight as f32) as u32;
+                                let distance = result
+                                    .distance()
+                                    .saturating_add((from_link_fraction * from_link.weight as f32) as u32)
+                                    .saturating_add((to_link_fraction * to_link.weight as f32) as u32);
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
-- 
2.43.0


From 5a4f6a2e078d5d271124ca16d450b65cf9503da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 42/51] fix: server forgot earlier customizations and used
 outdated travel times for links

Updates are now carried over into later customizations as documented, an
earlier customization cannot replace a later one and the links on the path and
the length of the first and last link are determined with the travel times of
the active customization.
---
 server/src/main.rs | 53 ++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 1ee52b5..5806e72 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -182,7 +182,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     let first_out = Vec::load_from(path.join("first_out"))?;
     let head = Vec::load_from(path.join("head"))?;
-    let travel_time = Vec::load_from(path.join("travel_time"))?;
+    let mut travel_time = Vec::load_from(path.join("travel_time"))?;
 
     let lat = Vec::load_from(path.join("latitude"))?;
     let lng = Vec::load_from(path.join("longitude"))?;
@@ -211,7 +211,9 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        let server = Arc::new(Mutex::new(Server::new(cch_customize(&cch, &graph))));
+        // number of the customization which is currently active, its travel times and the query server for them
+        let server = Arc::new(Mutex::new((0usize, travel_time.clone(), Server::new(cch_customize(&cch, &graph)))));
+        let mut num_customizations = 0;
 
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
@@ -239,7 +241,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let mut server = server.lock().unwrap();
+                        let (_, _, server) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -272,19 +274,18 @@ fn main() -> Result<(), Box<dyn Error>> {
                             _ => continue,
                         };
 
-                        let from_link = graph.link(from_link_local_id);
-                        let from = from_link.node;
-
-                        let to_link = graph.link(to_link_local_id);
+                        let from = graph.link(from_link_local_id).node;
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let mut server = server.lock().unwrap();
+                        let (_, travel_time, server) = &mut *server.lock().unwrap();
+                        let from_link_weight = travel_time[from_link_local_id as usize];
+                        let to_link_weight = travel_time[to_link_local_id as usize];
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result
                                     .distance()
-                                    .saturating_add((from_link_fraction * from_link.weight as f32) as u32)
-                                    .saturating_add((to_link_fraction * to_link.weight as f32) as u32);
+                                    .saturating_add((from_link_fraction * from_link_weight as f32) as u32)
+                                    .saturating_add((to_link_fraction * to_link_weight as f32) as u32);
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
@@ -298,7 +299,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                                             .map(|(first_node, second_node)| {
                                                 graph
                                                     .edge_indices(*first_node, *second_node)
-                                                    .min_by_key(|&EdgeIdT(edge)| graph.weight()[edge as usize])
+                                                    .min_by_key(|&EdgeIdT(edge)| travel_time[edge as usize])
                                                     .unwrap()
                                             })
                                             .map(|EdgeIdT(link_id)| {
@@ -316,26 +317,32 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result.send(result).unwrap();
                     }
                     Request::Customize(updates) => {
+                        // the new values are carried over into future customizations
+                        for (here_link_id, is_from_ref, weight) in updates.into_iter() {
+                            let direction = if is_from_ref { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                            if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, direction) {
+                                travel_time[link_idx as usize] = weight.0
+                            }
+                        }
+
+                        num_customizations += 1;
+                        let customization = num_customizations;
                         let server = server.clone();
-                        let mut travel_time = travel_time.clone();
-                        let id_mapper = &id_mapper;
+                        let travel_time = travel_time.clone();
                         let cch = &cch;
                         let first_out = &first_out;
                         let head = &head;
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            for (here_link_id, is_from_ref, weight) in updates.into_iter() {
-                                if is_from_ref {
-                                    if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::FromRef) {
-                                        travel_time[link_idx as usize] = weight.0
-                                    }
-                                } else if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::ToRef) {
-                                    travel_time[link_idx as usize] = weight.0
-                                }
+                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
+                            let mut server = server.lock().unwrap();
+                            // a later customization might have been faster
+                            if server.0 < customization {
+                                server.0 = customization;
+                                server.1 = travel_time;
+                                server.2.update(customized);
                             }
-                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            server.lock().unwrap().update(customized);
                         });
                     }
                 }
-- 
2.43.0


From 73f4ba76f2e6f90cdb4fbe757f227b5068674612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 43/51] fix: velocity estimate was not a number for a last
 trace at the beginning of its link

---
 .../link_speed_estimates/link_speed_estimator.rs  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/engine/src/link_speed_estimates/link_speed_estimator.rs b/engine/src/link_speed_estimates/link_speed_estimator.rs
index 9d0f2e0..66520cc 100644
--- a/engine/src/link_speed_estimates/link_speed_estimator.rs
+++ b/engine/src/link_speed_estimates/link_speed_estimator.rs
@@ -80,6 +80,7 @@ impl<'a> State<'a> for InitialLinkWithTrace<'a> {
                 link: self.link,
                 last_trace: trace,
                 entry_timestamp,
+                entry_velocity: delta_fraction * f64::from(self.link.length) / delta_t as f64 * 3.6,
                 quality: delta_fraction,
             }),
             Box::new(empty()),
@@ -153,7 +154,8 @@ impl<'a> State<'a> for IntermediateLinkAfterInitial<'a> {
             })
         }));
 
-        let entry_timestamp = trace.timestamp - (f64::from(length_before_current_trace) * 3.6 / (f64::from(link.speed_limit) * velocity_factor)) as u64;
+        let entry_velocity = f64::from(link.speed_limit) * velocity_factor;
+        let entry_timestamp = trace.timestamp - (f64::from(length_before_current_trace) * 3.6 / entry_velocity) as u64;
         let quality = f64::from(length_before_current_trace) / f64::from(total_length) * f64::from(trace.traversed_in_travel_direction_fraction);
 
         (
@@ -161,6 +163,7 @@ impl<'a> State<'a> for IntermediateLinkAfterInitial<'a> {
                 link,
                 last_trace: trace,
                 entry_timestamp,
+                entry_velocity,
                 quality,
             }),
             Box::new(output),
@@ -176,6 +179,7 @@ impl<'a> State<'a> for IntermediateLinkAfterInitial<'a> {
 struct LinkWithEntryTimestampAndTrace<'a> {
     link: &'a LinkData,
     entry_timestamp: u64,
+    entry_velocity: f64, // [km/h]
     last_trace: &'a TraceData,
     quality: f64,
 }
@@ -202,12 +206,13 @@ impl<'a> State<'a> for LinkWithEntryTimestampAndTrace<'a> {
     fn on_done(self: Box<Self>) -> Box<dyn Iterator<Item = LinkSpeedData>> {
         let delta_t = self.last_trace.timestamp - self.entry_timestamp;
         let delta_s = f64::from(self.last_trace.traversed_in_travel_direction_fraction) * f64::from(self.link.length);
-        let velocity = delta_s / delta_t as f64;
+        // there is nothing to measure when the last trace is at the very beginning of the link
+        let velocity = if delta_t == 0 { self.entry_velocity } else { delta_s / delta_t as f64 * 3.6 };
         Box::new(once(LinkSpeedData {
             link_id: self.link.link_id,
             link_entered_timestamp: self.entry_timestamp,
             estimate_quality: self.quality as f32,
-            velocity: (velocity * 3.6) as f32,
+            velocity: velocity as f32,
         }))
     }
 }
@@ -273,7 +278,8 @@ impl<'a> State<'a> for IntermediateLink<'a> {
             })
         }));
 
-        let entry_timestamp = trace.timestamp - (f64::from(length_before_current_trace) * 3.6 / (f64::from(link.speed_limit) * velocity_factor)) as u64;
+        let entry_velocity = f64::from(link.speed_limit) * velocity_factor;
+        let entry_timestamp = trace.timestamp - (f64::from(length_before_current_trace) * 3.6 / entry_velocity) as u64;
         let quality = f64::from(length_before_current_trace) / f64::from(total_length) * f64::from(trace.traversed_in_travel_direction_fraction);
 
         (
@@ -281,6 +287,7 @@ impl<'a> State<'a> for IntermediateLink<'a> {
                 link,
                 last_trace: trace,
                 entry_timestamp,
+                entry_velocity,
                 quality,
             }),
             Box::new(output),
-- 
2.43.0


From a30e422c3b237d74d984c000e932fffcbc0d17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 44/51] fix: overflow while comparing metrics with huge
 differences

---
 engine/src/algo/metric_merging.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/metric_merging.rs b/engine/src/algo/metric_merging.rs
index f753247..ecadc1c 100644
--- a/engine/src/algo/metric_merging.rs
+++ b/engine/src/algo/metric_merging.rs
@@ -83,7 +83,7 @@ pub fn merge(metrics: &[&[Weight]], target_size: usize) -> Vec<Vec<usize>> {
                             }
                             let w1 = merged[idx1].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
                             let w2 = merged[idx2].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
-                            sum_of_squared_diffs += w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64;
+                            sum_of_squared_diffs = sum_of_squared_diffs.saturating_add(w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64);
                             edges_checked += 1;
                         }
                         if edges_checked as usize >= m {
-- 
2.43.0


From 79f97dac5f4c2638f3fc79e6bdfe04e2d1c05c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 45/51] fix: import_here: round the corners of the bounding box
 instead of cutting off digits

---
 conversion/src/bin/import_here.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conversion/src/bin/import_here.rs b/conversion/src/bin/import_here.rs
index 375994e..6c029c6 100644
--- a/conversion/src/bin/import_here.rs
+++ b/conversion/src/bin/import_here.rs
@@ -11,10 +11,10 @@ fn main() -> Result<(), Box<dyn Error>> {
     let in_dir = &args.next().ok_or(CliErr("No input directory arg given"))?;
     let out_dir = &args.next().ok_or(CliErr("No output directory arg given"))?;
 
-    let min_lat = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(-360.0))? * 100_000.) as i64;
-    let min_lon = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(-360.0))? * 100_000.) as i64;
-    let max_lat = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(360.0))? * 100_000.) as i64;
-    let max_lon = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(360.0))? * 100_000.) as i64;
+    let min_lat = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(-360.0))? * 100_000.).round() as i64;
+    let min_lon = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(-360.0))? * 100_000.).round() as i64;
+    let max_lat = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(360.0))? * 100_000.).round() as i64;
+    let max_lon = (args.next().as_deref().map(f64::from_str).unwrap_or(Ok(360.0))? * 100_000.).round() as i64;
 
     let source = CSVSource::new(Path::new(in_dir));
     let data = read_graph(&source, (min_lat, min_lon), (max_lat, max_lon));
-- 
2.43.0


From d3fb2a47ab075788836c660756dd90c3fd4eeb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 46/51] fix: import_tpgr: round times to milliseconds instead
 of cutting off digits

---
 conversion/src/bin/import_tpgr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conversion/src/bin/import_tpgr.rs b/conversion/src/bin/import_tpgr.rs
index 421ca53..f8f1d03 100644
--- a/conversion/src/bin/import_tpgr.rs
+++ b/conversion/src/bin/import_tpgr.rs
@@ -60,9 +60,9 @@ fn main() -> Result<(), Box<dyn Error>> {
         head.push(edge_head);
 
         for _ in 0..ipp_count {
-            let at = (words.next().unwrap().parse::<f64>().unwrap() * 1000.0) as Timestamp;
+            let at = (words.next().unwrap().parse::<f64>().unwrap() * 1000.0).round() as Timestamp;
             ipp_departure_time.push(at);
-            let val = (words.next().unwrap().parse::<f64>().unwrap() * 1000.0) as Weight;
+            let val = (words.next().unwrap().parse::<f64>().unwrap() * 1000.0).round() as Weight;
             ipp_travel_time.push(val);
         }
         debug_assert_eq!(words.next(), None);
-- 
2.43.0


From 64cd4eb958b2b95d07b0ad1861a868fe67441c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 47/51] fix: import_td_mapbox: the moving average wraps around
 at midnight

---
 conversion/src/bin/import_td_mapbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/bin/import_td_mapbox.rs b/conversion/src/bin/import_td_mapbox.rs
index ef98a10..605ede7 100644
--- a/conversion/src/bin/import_td_mapbox.rs
+++ b/conversion/src/bin/import_td_mapbox.rs
@@ -79,7 +79,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     let speeds_old = speeds.clone();
                     let num_buckets = speeds.len();
                     for i in 0..num_buckets {
-                        let idx = |offset: isize| ((i as isize + offset) as usize) % num_buckets;
+                        let idx = |offset: isize| (i as isize + offset).rem_euclid(num_buckets as isize) as usize;
                         speeds[i] = (speeds_old[idx(-3)]
                             + speeds_old[idx(-2)]
                             + speeds_old[idx(-1)]
-- 
2.43.0


From f885091d493146ff09510b7bdde621ffa5d86c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 48/51] fix: scrub_td_mapbox: accept the last column of a line

---
 conversion/src/bin/scrub_td_mapbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/bin/scrub_td_mapbox.rs b/conversion/src/bin/scrub_td_mapbox.rs
index 04b1c1c..00e698a 100644
--- a/conversion/src/bin/scrub_td_mapbox.rs
+++ b/conversion/src/bin/scrub_td_mapbox.rs
@@ -12,7 +12,7 @@ fn main() {
     let mut cin = stdin.lock();
     let mut s = String::new();
     while cin.read_line(&mut s).unwrap() > 0 {
-        let mut iter = s.split(',').map(|x| x.parse::<u64>().unwrap());
+        let mut iter = s.trim_end().split(',').map(|x| x.parse::<u64>().unwrap());
         let tail = iter.next().unwrap();
         let head = iter.next().unwrap();
         let values = iter.skip(start).take(end - start).map(|speed| speed as u8).collect::<Vec<u8>>();
-- 
2.43.0


From 26022cb3637b60952c1176bfb48ae6888dd78a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 49/51] fix: time dependent traffic aware servers: report the
 increase relative to the travel time, not the time of day

---
 engine/src/algo/traffic_aware/td_live.rs        | 2 +-
 engine/src/algo/traffic_aware/time_dependent.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index b5b0882..60b4568 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -84,7 +84,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
             }
 
             debug_assert_eq!(self.dijkstra_data.distances[query.to as usize].popped().len(), 1);
-            final_live_dist = self.dijkstra_data.distances[query.to as usize].popped()[0].0 .0;
+            final_live_dist = self.dijkstra_data.distances[query.to as usize].popped()[0].0 .0 - query.departure;
             base_live_dist.get_or_insert(final_live_dist);
 
             let mut path = vec![query.to];
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index a640a3a..3b52d8b 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -84,7 +84,7 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
             }
 
             debug_assert_eq!(self.dijkstra_data.distances[query.to as usize].popped().len(), 1);
-            final_live_dist = self.dijkstra_data.distances[query.to as usize].popped()[0].0 .0;
+            final_live_dist = self.dijkstra_data.distances[query.to as usize].popped()[0].0 .0 - query.departure;
             base_live_dist.get_or_insert(final_live_dist);
 
             let mut path = vec![query.to];
-- 
2.43.0


From 7887ff14f8979b3ea5151147028f7601e97d0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 50/51] fix: bucket CH searches: accept the same terminal
 several times

---
 engine/src/algo/ch_potentials.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 4bbf11e..0cddfd2 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -641,7 +641,7 @@ pub struct BucketCHSelectionRun<'a, G, H> {
     queue: &'a mut IndexdMinHeap<NodeIdT>,
     incoming: &'a mut [Vec<(NodeIdT, Weight)>],
     incoming_pruning: &'a mut [Vec<(NodeIdT, Weight)>],
-    terminal_dists: &'a mut [Weight],
+    terminal_dists: &'a mut Vec<Weight>,
     used_terminals: &'a mut Vec<NodeIdT>,
 }
 
@@ -669,8 +669,11 @@ where
         self.queue.clear();
         self.distances.reset();
         for (i, terminal) in terminals.enumerate() {
-            self.queue.push(NodeIdT(terminal));
+            self.queue.push_unless_contained(NodeIdT(terminal));
             self.distances[terminal as usize].push((i as u32, 0));
+            if i >= self.terminal_dists.len() {
+                self.terminal_dists.push(INFINITY);
+            }
         }
     }
 
-- 
2.43.0


From 6f5f1d09ac10762b937aaae3e5825e52b797d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 51/51] fix: chpot_dijkstra_ranks: do not report the lower
 bound twice

---
 chpot/src/bin/chpot_dijkstra_ranks.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chpot/src/bin/chpot_dijkstra_ranks.rs b/chpot/src/bin/chpot_dijkstra_ranks.rs
index 3d93522..234acdf 100644
--- a/chpot/src/bin/chpot_dijkstra_ranks.rs
+++ b/chpot/src/bin/chpot_dijkstra_ranks.rs
@@ -58,7 +58,6 @@ fn main() -> Result<(), Box<dyn Error>> {
             report!("result", dist);
             res.node_path().expect("Dijkstra Rank Query should always have a path");
             report!("num_pot_computations", res.data().potential().num_pot_computations());
-            report!("lower_bound", res.data().lower_bound(from));
         });
     }
 
-- 
2.43.0

