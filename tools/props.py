import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
    assert len(title)<=80,(id,len(title))
    P.append(d)
E='engine/src/'
p('C01','Dijkstra servers: exact distances and valid paths for any query history',
 "For every weighted directed graph (self loops, parallel arcs, zero weights, arcs closed with infinite weight and disconnected parts included) the unidirectional and bidirectional Dijkstra servers report exactly the shortest distance, or nothing iff the target is unreachable. The reported node path and edge path start at the source, end at the target, follow existing arcs and have exactly that length; one-to-all trees, Dijkstra ranks and distance caps agree with it. The answer never depends on which queries the same server answered before.",
 ['inputs','histories'],'all graphs and all query sequences on one server',
 'The suite runs a handful of queries on one hand-written graph; it never reuses a server over arbitrary histories nor samples parallel/zero/closed arcs.',
 [E+'algo/dijkstra.rs',E+'algo/dijkstra/generic_dijkstra.rs',E+'algo/dijkstra/query/dijkstra.rs',E+'algo/dijkstra/query/bidirectional_dijkstra.rs'],
 [('label setting search with resettable labels',E+'algo/dijkstra/generic_dijkstra.rs'),('stop/prune criterion of the bidirectional search',E+'algo/dijkstra/query/bidirectional_dijkstra.rs')])
p('C02','Contraction Hierarchies preserve all shortest distances and paths',
 "For every weighted directed graph and every contraction order, a query on the contraction hierarchy built from it returns the shortest distance of the original graph, or nothing iff the target is unreachable. The reported path is a path of original nodes from source to target whose arcs exist in the original graph and whose length is that distance. Contracting only a prefix of the order leaves an overlay that preserves all distances among the remaining nodes.",
 ['inputs','histories'],'all graphs, all node orders, all query sequences',
 'Tests contract one fixed 6-node graph and never unpack a path.',
 [E+'algo/contraction_hierarchy/mod.rs',E+'algo/contraction_hierarchy/query.rs'],
 [('witness search and shortcut insertion',E+'algo/contraction_hierarchy/mod.rs'),('upward/downward query',E+'algo/contraction_hierarchy/query.rs')])
p('C03','Customizable CH queries are exact for every graph, order, metric and update',
 "For every graph, every contraction order and every metric, a customizable contraction hierarchy preprocessed once and customized with that metric (basic, perfect or directed customization) answers every query with the shortest distance under that metric, or nothing iff unreachable. The unpacked node and edge paths are real paths of the input graph of exactly that length. After swapping in another customization the same server answers for the new metric only, whatever was queried before. After perfect customization of the complete hierarchy every surviving arc is as long as the shortest path between its end points.",
 ['inputs','histories','configurations'],'all graphs (incl. closed arcs, parallel arcs, loops), orders, metrics, customization variants and query/update histories',
 'Existing CCH tests use a few tiny graphs with one metric; perfect/directed customization, updates and path unpacking are only sampled once or not at all.',
 [E+'algo/customizable_contraction_hierarchy/mod.rs',E+'algo/customizable_contraction_hierarchy/contraction.rs',E+'algo/customizable_contraction_hierarchy/customization.rs',E+'algo/customizable_contraction_hierarchy/customization/directed.rs',E+'algo/customizable_contraction_hierarchy/query.rs'],
 [('respecting and triangle customization',E+'algo/customizable_contraction_hierarchy/customization.rs'),('elimination tree query and shortcut unpacking',E+'algo/customizable_contraction_hierarchy/query.rs')])
p('C04','CCH preprocessing yields the chordal supergraph, its elimination tree and order',
 "For every graph and order the CCH topology is exactly the filled graph obtained by eliminating nodes in that order (every input arc is represented, upward neighbours of a node form a clique, nothing else is inserted), the elimination tree parent is the lowest upper neighbour, and the mapping between CCH arcs and input arcs is complete. The order fixed up for parallelisation is a permutation with an equally correct hierarchy whose separator tree covers every node exactly once, and storing the preprocessing and loading it again gives the same hierarchy.",
 ['inputs','configurations'],'all graphs and orders',
 'Tests never compare the contracted topology with an independent elimination game nor reload it.',
 [E+'algo/customizable_contraction_hierarchy/mod.rs',E+'algo/customizable_contraction_hierarchy/contraction.rs',E+'algo/customizable_contraction_hierarchy/separator_decomposition.rs',E+'algo/customizable_contraction_hierarchy/reorder.rs'],
 [('contraction graph',E+'algo/customizable_contraction_hierarchy/contraction.rs'),('separator tree / reordering',E+'algo/customizable_contraction_hierarchy')])
p('C05','Customization is independent of thread count and parallelisation',
 "For every graph, order and metric the result of (perfect, directed or basic) customization and of time-dependent customization does not depend on how many worker threads run it or on how work is split between them: all produce the same distances, and the same set of surviving shortcuts, as the sequential computation.",
 ['schedules','inputs','configurations'],'all thread counts / work splits, graphs, orders and metrics',
 'Tests run with graphs too small to ever leave the sequential path and with one pool size.',
 [E+'algo/customizable_contraction_hierarchy/customization.rs',E+'algo/customizable_contraction_hierarchy/customization/parallelization.rs',E+'algo/customizable_contraction_hierarchy/customization/ftd.rs'],
 [('separator based task tree',E+'algo/customizable_contraction_hierarchy/customization/parallelization.rs')])
p('C06','A* potentials are feasible lower bounds; hierarchy-based ones are exact',
 "For every graph, target (or source) and sequence of re-initialisations, the CCH, CH and bucket based potentials return exactly the distance to the target for every node (nothing iff it cannot reach it), and landmark (ALT) and averaged/combined potentials never exceed the true distance and never make a reduced arc weight negative. Wrappers (recycling, permuted, turn-expanded) return the value of the wrapped potential for the corresponding node.",
 ['inputs','histories'],'all graphs, targets, evaluation orders and re-initialisation histories',
 'No unit test evaluates a potential at all.',
 [E+'algo/a_star.rs',E+'algo/ch_potentials.rs',E+'algo/alt.rs'],
 [('lazy RPHAST potential evaluation',E+'algo/ch_potentials.rs'),('landmark triangle inequalities',E+'algo/alt.rs')])
p('C07','Goal-directed (A*) searches return the same answers as Dijkstra',
 "For every graph and query history, uni- and bidirectional A* with any of the shipped potentials (CCH, CH, ALT, zero, averaged, symmetric, with or without improved pruning and both direction-choosing strategies) returns exactly the shortest distance, nothing iff unreachable, and a valid path of that length.",
 ['inputs','histories','configurations'],'all graphs, potentials, strategies and query histories',
 'Tests exercise A* on at most one graph and one potential.',
 [E+'algo/a_star.rs',E+'algo/dijkstra/query/dijkstra.rs',E+'algo/dijkstra/query/bidirectional_dijkstra.rs',E+'algo/ch_potentials.rs',E+'algo/alt.rs'],
 [('potential based stopping and pruning',E+'algo/a_star.rs')])
p('C08','Low-degree/BCC topology optimisations never change query results',
 "For every graph and query history, the query servers that exploit graph topology (skipping degree-2/3 chains, restricting to the largest biconnected core, bidirectional and multi-threaded variants, one-to-all and capped searches) return exactly the shortest distance of the original graph, nothing iff unreachable, and valid paths in original node ids.",
 ['inputs','histories','configurations','schedules'],'all graphs incl. one-way streets, chains, cycles, trees and several components; all feature combinations; all query histories',
 'No test runs topo servers on generated graphs; the corner cases are chains, isolated cycles, cores that cannot be reached.',
 [E+'algo/topocore.rs',E+'algo/dijkstra/gen_topo_dijkstra.rs',E+'algo/ch_potentials/query.rs'],
 [('core extraction',E+'algo/topocore.rs'),('chain skipping relaxation',E+'algo/dijkstra/gen_topo_dijkstra.rs')])
p('C09','One-to-many/many-to-one engines equal point-to-point distances',
 "For every graph, metric, target set and sequence of selections and sources, RPHAST (scalar and SIMD-style batched), lazy RPHAST and bucket based many-to-one searches report for every (source, target) pair exactly the shortest distance, infinity iff unreachable.",
 ['inputs','histories'],'all graphs, metrics, target sets, batches and histories of selections',
 'Only one tiny RPHAST test exists.',
 [E+'algo/rphast.rs',E+'algo/ch_potentials.rs'],
 [('restricted downward sweep',E+'algo/rphast.rs')])
p('C10','k-nearest-neighbour engines return the k closest reachable targets',
 "For every graph, target set, source and k, each nearest-neighbour engine (Dijkstra, bucket CCH, separator based, lazy RPHAST) returns min(k, number of reachable targets) distinct targets with their exact shortest distances (the Dijkstra based engine in ascending order), and no omitted target is closer than a returned one. Changing the target set takes full effect on the next query.",
 ['inputs','histories'],'all graphs, target sets, k and histories',
 'There are no nearest-neighbour tests beyond one example.',
 [E+'algo/dijkstra/query/nearest_neighbor.rs',E+'algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs'],
 [('bucket / separator lower bound pruning',E+'algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs')])
p('C11','Hub labels give exact distances and hubs',
 "For every graph and order, hub labels computed from a customized hierarchy answer every pair with exactly the shortest distance, nothing iff unreachable. The hub they report lies on a shortest path between the endpoints, and every label is the exact distance between its node and its hub.",
 ['inputs'],'all graphs, orders and pairs','No test covers hub labels.',
 [E+'algo/hl.rs'],[('label merge and pruning',E+'algo/hl.rs')])
p('C12','Integer travel time functions evaluate, bound and average correctly',
 "For every periodic FIFO travel time function and every time of day, evaluation is the piecewise linear interpolation of its breakpoints (periodically continued), the global and windowed lower/upper bounds enclose every value in the window and are attained up to rounding, and averages lie between them.",
 ['inputs'],'all periodic piecewise linear functions, timestamps and windows (also wrapping midnight)',
 'Tests evaluate three hand-written functions.',
 [E+'datastr/graph/time_dependent/piecewise_linear_function.rs',E+'datastr/graph/time_dependent/graph.rs',E+'datastr/graph/time_dependent/math.rs'],
 [('breakpoint search and interpolation',E+'datastr/graph/time_dependent/piecewise_linear_function.rs')])
p('C13','Time-dependent queries (with and without live traffic) find earliest arrivals',
 "For every time-dependent FIFO network, departure time and live-traffic overlay, time-dependent Dijkstra and time-dependent A* (multi-metric, interval-minimum, lower-bound potentials, topology-optimised servers) report exactly the minimum travel time for that departure, nothing iff unreachable, along a path that when driven edge by edge arrives at exactly that time.",
 ['inputs','histories','configurations'],'all FIFO networks, departures, overlays and query histories',
 'Tests use no generated TD networks; potentials for TD A* are untested.',
 [E+'algo/dijkstra/query/td_dijkstra.rs',E+'algo/td_astar.rs',E+'algo/ch_potentials/td_query.rs',E+'datastr/graph/time_dependent/graph.rs'],
 [('interval lower bounds',E+'algo/td_astar.rs')])
p('C14','Real-valued travel time function algebra is sound',
 "For every pair of periodic (or partial) FIFO piecewise linear travel time functions, linking equals driving one after the other, merging equals the pointwise minimum together with correct information which one is better when, inversion inverts arrival, and approximations and lower/upper bound functions stay within the promised error and on the promised side at every point in time. Every result is again a valid FIFO function covering the same time range.",
 ['inputs'],'all valid functions and evaluation times',
 'Tests check a few fixed functions at fixed points.',
 [E+'datastr/graph/floating_time_dependent/piecewise_linear_function.rs'],
 [('sweep-line link/merge, Douglas-Peucker / Imai-Iri',E+'datastr/graph/floating_time_dependent/piecewise_linear_function')])
p('C15','CATCHUp (time-dependent CCH) finds earliest arrivals with valid paths',
 "For every time-dependent FIFO network, order, departure time and query history, CATCHUp reports the same travel time as a time-dependent Dijkstra on the original network up to the documented approximation tolerance, nothing iff unreachable, and a path of original nodes with non-decreasing timestamps whose driven travel time is that value.",
 ['inputs','histories','configurations'],'all networks, orders, departures and histories',
 'Tests run no CATCHUp query on generated networks.',
 [E+'algo/catchup.rs',E+'algo/customizable_contraction_hierarchy/customization/ftd.rs',E+'datastr/graph/floating_time_dependent/shortcut.rs',E+'datastr/graph/floating_time_dependent/shortcut_graph.rs'],
 [('shortcut unpacking by time',E+'datastr/graph/floating_time_dependent/shortcut.rs'),('elimination tree corridor + A*/lazy query',E+'algo/catchup.rs')])
p('C16','Profile queries give the travel time function over the whole day',
 "For every time-dependent FIFO network, order and node pair, the whole-day profile searches return a function whose value at every departure time is the shortest travel time for that departure (up to the numerical tolerance), the paths reported for the time intervals partition the day and are optimal within their interval, and unreachable pairs are reported as such.",
 ['inputs','histories'],'all networks, orders, pairs, departure times','No profile test on generated networks.',
 [E+'algo/catchup/profiles.rs',E+'algo/catchup/profiles_naive.rs'],
 [('corridor restricted profile merge',E+'algo/catchup/profiles.rs')])
p('C17','Stored data reads back identically; malformed files are rejected',
 "Whatever vector, graph, order, bit set or preprocessing result is written to disk reads back equal, with the documented headerless little-endian layout; loading never reads out of bounds: a file whose size does not fit the element type, or a missing file, yields an error rather than wrong data.",
 ['inputs','fault_sequences'],'all values and all file contents/truncations',
 'Tests do not touch the filesystem.',
 [E+'io.rs',E+'datastr/graph/first_out_graph.rs',E+'datastr/node_order.rs'],[('byte reinterpretation',E+'io.rs')])
p('C18','Priority queues behave like sorted multisets',
 "For every sequence of operations, the addressable 4-ary heap (push, push-unless-contained, decrease, increase and update key, pop, peek, clear, drain, lookups) and the multi-criteria heap (push, pop, retain, clear) return the same results as a simple sorted list model.",
 ['histories'],'all operation sequences','Tests/doctests run one short sequence.',
 [E+'datastr/index_heap.rs',E+'datastr/heap.rs'],[('sift up/down with position index',E+'datastr/index_heap.rs')])
p('C19','Resettable vectors, bit sets and rank/select maps match their models',
 "For every sequence of operations, timestamped and clear-list vectors, atomic distance arrays, bit sets and fast-clear bit sets behave like plain arrays/sets that are reinitialised on reset (also when the internal clock wraps), and the rank/select map is the order isomorphism between the inserted ids and 0..k with a correct inverse.",
 ['histories','inputs'],'all operation sequences, sizes and key sets','Tests use three fixed key sets.',
 [E+'datastr/timestamped_vector.rs',E+'datastr/clearlist_vector.rs',E+'datastr/rank_select_map.rs',E+'util/in_range_option.rs'],
 [('timestamps / clear lists / popcount prefix sums',E+'datastr')])
p('C20','Graph transformations preserve exactly the arcs they claim to',
 "For every graph, reversing, permuting, filtering, unifying parallel arcs, filtering closed arcs, building from adjacency lists, turn expansion (line graph) and edge-to-tail lookup preserve the multiset of arcs and weights in the stated way, and edge ids reported by random access lookups denote arcs with those endpoints; routing on the turn-expanded graph equals routing over edge sequences with turn costs.",
 ['inputs'],'all graphs, permutations and turn cost functions','Tests cover one or two fixed graphs.',
 [E+'datastr/graph.rs',E+'datastr/graph/first_out_graph.rs',E+'datastr/graph/link_id_to_tail_mapper.rs'],[('counting sort reversal',E+'datastr/graph/first_out_graph.rs')])
p('C21','Alternative routes and unbounded-stretch checks are sound',
 "For every graph and query, the detection of sub-paths with too much stretch reports exactly the minimal sub-paths longer than (1+epsilon) times the shortest distance, whichever of the interchangeable algorithms computes it; penalty and detour based alternatives are valid paths with the promised bounded length, and repairing a path yields a valid path between the same endpoints. Repeated queries on one server do not influence each other.",
 ['inputs','histories'],'all graphs, paths, epsilons and histories','No tests for these modules beyond two examples.',
 [E+'algo/minimal_nonshortest_subpaths.rs',E+'algo/ch_potentials/penalty.rs',E+'algo/traffic_aware.rs'],
 [('path tree stretch test',E+'algo/minimal_nonshortest_subpaths.rs'),('weight restoration',E+'algo/ch_potentials/penalty.rs')])
p('C22','The HTTP server answers routing requests correctly across updates',
 "Over any sequence of requests the HTTP server answers geo queries with the shortest travel time and path between the nodes nearest to the given coordinates and link queries with the route between the given links, under the metric given by the base travel times plus all customization updates applied so far. Invalid requests get an error response and never disturb later requests.",
 ['histories','inputs'],'all request sequences','The server crate has no tests.',
 ['server/src/main.rs','conversion/src/here/link_id_mapper.rs'],[('engine thread with channel',"server/src/main.rs")])
p('C23','Map import and link id mapping are lossless',
 "Importing HERE map tables yields, for every link permitted in a direction and lying in the requested bounding box, exactly one arc in that direction with the right endpoints, length and travel time, and nothing else; the mapping between HERE link ids with direction and local arcs is a bijection in both directions. Speed profiles are turned into FIFO travel time profiles over the same day.",
 ['inputs'],'all map tables, boxes and speed profiles','Only a few speed profiles are tested.',
 ['conversion/src/here/mod.rs','conversion/src/here/link_id_mapper.rs','conversion/src/lib.rs'],[('degree counting and in-place prefix sums','conversion/src/here/mod.rs')])
p('C24','Link speed estimation accounts for the whole trace',
 "For every map-matched trajectory (links in driving order, traces with increasing time stamps at advancing positions, at least one trace on the first and last link) the estimator emits exactly one estimate per link, in driving order, with non-decreasing entry times and positive finite velocities. Between two traces all links are passed at their speed limit times one common factor that matches the elapsed time; entry times, velocities and qualities agree with that up to rounding. Missing links or traces are reported as an error.",
 ['inputs'],'all trajectories','Two fixed trajectories are tested.',
 ['engine/src/link_speed_estimates/link_speed_estimator.rs','engine/src/link_speed_estimates/event_iterator.rs','engine/src/link_speed_estimates/mod.rs'],[('event driven state machine','engine/src/link_speed_estimates/link_speed_estimator.rs'),('merging links and traces','engine/src/link_speed_estimates/event_iterator.rs')])
p('C25','Time-dependent sampling and metric reduction stay sound',
 "Time-dependent sampling finds a route iff one exists; its travel time is never below the optimum for the departure, is realised by driving the reported path, and is never worse than the route that is shortest for the average travel times of any of its four day time windows. The average travel time of a function over any (possibly wrapping) window is its integral divided by the length of the window. Merging metrics partitions all input metrics into the requested number of groups, always joining the two groups whose minima differ least.",
 ['inputs','histories'],'all networks, departures, windows and metric sets','No tests exist for either.',
 [E+'algo/time_dependent_sampling.rs',E+'algo/metric_merging.rs',E+'datastr/graph/time_dependent/piecewise_linear_function.rs'],
 [('window metrics and search in the union of the routes',E+'algo/time_dependent_sampling.rs'),('lazy evaluation of pairs',E+'algo/metric_merging.rs')])
p('C26','Structured reports mirror the nesting of the reporting contexts',
 "For every properly nested sequence of reported values, contexts, collections with items, blocked sections and captures, a captured report contains exactly the values reported in it under the path of keys and collection positions of the enclosing contexts; values reported while blocked or inside of an inner capture appear nowhere else, closing a context always resumes the enclosing one, and the measuring helpers pass on the result of the measured function.",
 ['histories'],'all properly nested sequences of reporting operations','There are no tests for reporting.',
 [E+'report.rs',E+'report/benchmark.rs'],[('context stack',E+'report.rs')])
U='utils/src/bin/'
C='conversion/src/bin/'
p('C27','Utility programs transform vectors, orders, graphs and functions faithfully',
 "encode_vector followed by decode_vector gives back every vector of every supported type, and compare_vector reports exactly the differing positions. invert_order writes the inverse permutation and permute_node_data moves the data of every node to its position in the order; permutate_and_split, subgraph, generate_tail and write_unit_files write graphs with exactly the arcs (and weights, coordinates, functions) of the requested nodes under the new numbering. td_lower_bound and remove_period_points keep the minimum respectively the values of every travel time function. generate_queries only writes queries of the requested kind (Dijkstra ranks, time limits) and generate_fake_traffic only changes travel times of complete arcs within its bounds.",
 ['inputs'],'all well-formed data directories and arguments','There are no tests for the programs at all.',
 [U+f for f in ['encode_vector.rs','decode_vector.rs','compare_vector.rs','invert_order.rs','permute_node_data.rs','permutate_and_split.rs','subgraph.rs','generate_tail.rs','write_unit_files.rs','td_lower_bound.rs','remove_period_points.rs','generate_queries.rs','generate_fake_traffic.rs']],
 [('selecting the arcs of a sub-graph',U+'subgraph.rs'),('query generation by rank and time',U+'generate_queries.rs')])
p('C28','Conversion programs translate road data without changing it',
 "The conversion programs write exactly the network and numbers of their input: import_here the network of the HERE files restricted to the given box, import_tpgr, tpgr_upscaling and the tbgr/veit/DIMACS exports the same arcs and travel time functions in the units of the target format, generate_geo_distances the lengths between the coordinates, the demand exports the same queries. Live speeds and speed profiles (mapbox, GPS) become travel times: an arc with a measured speed takes its length divided by that speed, a profile is the one which driving with the speeds of the time buckets gives, arcs without data keep their travel time, and no function overtakes itself.",
 ['inputs'],'all well-formed input files','There are no tests for the programs at all.',
 [C+f for f in ['import_here.rs','merge_here_link_data.rs','import_tpgr.rs','tpgr_upscaling.rs','td_ben_to_tbgr.rs','td_ben_bin_to_veit_tpgr.rs','export_dimacs.rs','generate_geo_distances.rs','td_ben_queries_to_stdout.rs','td_ben_queries_to_veit_demands.rs','import_mapbox_live.rs','mapbox_to_live_array.rs','import_td_mapbox.rs','scrub_td_mapbox.rs','gps_to_td_for_here.rs','osm_id_check.rs']],
 [('averaging and clamping of speeds',C+'import_td_mapbox.rs'),('bounding box of the import',C+'import_here.rs')])
p('C29','Preprocessing and query programs report the right answers',
 "For every well-formed data directory the query programs report exactly one answer per query, for the queries they were given (or randomly drawn nodes), and every reported result is the shortest distance (none if there is no route) in the network that the program is about: with the travel times as given (dijkstra, chpot_unmodified, chpot_dijkstra_ranks with all travel times times 1.5), the larger of usual and live travel times (chpot_live, bidir_chpot_live, cchpot_live), without the arcs of blocked categories (chpot_blocked, bidir_chpot_blocked), on the turn-expanded network without forbidden turns and u-turns (chpot_turns, bidir_chpot_turns, cchpot_live_turns), with time-dependent travel times (td_dijkstra, chpot_td, predicted_queries and CATCHUp) and with live reports (chpot_td_live, live_and_predicted_queries), whichever stored potential or preprocessing they are told to use. Programs with known answers (cch, cch_with_turns, test_cch_paths) succeed exactly if all of them are right. turn_expand_* write exactly the allowed turns with their costs, ptv_ti_to_live the travel times of the measured speeds, generate_*_queries only queries of the requested Dijkstra rank or travel time.",
 ['inputs'],'all well-formed data directories and queries','There are no tests for the programs at all; cch and test_cch_paths need prepared data which is not part of the repository.',
 ['engine/src/experiments.rs','engine/src/experiments/chpot.rs','engine/src/experiments/catchup.rs','engine/src/bin/cch.rs','engine/src/bin/cch_with_turns.rs','engine/src/bin/test_cch_paths.rs','chpot/src/bin/chpot_live.rs','chpot/src/bin/chpot_blocked.rs','chpot/src/bin/chpot_turns.rs','chpot/src/bin/chpot_td_live.rs','cchpp/src/bin/turn_expand_osm.rs','tdpot/src/bin/predicted_queries.rs','tdpot/src/bin/live_and_predicted_queries.rs','tdpot/src/bin/ptv_ti_to_live.rs','tdpot/src/bin/generate_rank_queries.rs','catchup/src/bin/tdcch_static_preprocessing.rs','catchup/src/bin/tdcch_pregen_uniform_queries.rs'],
 [('merging of live and usual travel times','chpot/src/bin/cchpot_live.rs'),('walking the sorted list of forbidden turns','chpot/src/bin/chpot_turns.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
