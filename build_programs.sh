#!/bin/bash
# Build the preprocessing and query programs from /repo's current working tree (outside of /repo).
set -e
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo
export CARGO_TARGET_DIR=${PROGRAMS_TARGET:-/verif/target-tools}
export CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0
bins=()
for b in dijkstra cch cch_with_turns test_cch_paths td_dijkstra \
    chpot_unmodified chpot_live bidir_chpot_live cchpot_live chpot_blocked bidir_chpot_blocked chpot_dijkstra_ranks \
    chpot_turns bidir_chpot_turns cchpot_live_turns turn_expand_osm turn_expand_100s_uturn chpot_td chpot_td_live \
    generate_rand_queries generate_rank_queries generate_1h_queries generate_4h_queries ptv_ti_to_live \
    interval_min_pre interval_min_build interval_min_live_customization multi_metric_pre multi_metric_live_customization \
    predicted_queries predicted_queries_no_topo live_and_predicted_queries live_and_predicted_queries_no_topo \
    tdcch_static_preprocessing tdcch_customization tdcch_pregen_uniform_queries tdcch_pregen_rank_queries; do
    bins+=(--bin "$b")
done
cargo build --offline --locked --quiet -p rust_road_router -p chpot -p cchpp -p tdpot -p catchup "${bins[@]}"
# the programs bind themselves to the first processor, which would serialise the search
echo 'int sched_setaffinity(int pid, unsigned long size, const void *set) { (void)pid; (void)size; (void)set; return 0; }' |
    gcc -x c -shared -fPIC -O1 -o "$CARGO_TARGET_DIR/debug/libunpinned.so" -
