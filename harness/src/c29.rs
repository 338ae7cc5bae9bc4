//! The preprocessing and query programs as real processes: what they report has to be right (C29).

use crate::c15;
use crate::c17::Scratch;
use crate::c27::{put, put_graph, put_td, tool};
use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::contraction_hierarchy::overlay;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use serde_json::Value;
use std::path::Path;
use std::process::{Command, Output, Stdio};

pub static PROP: Property = Property {
    id: "C29",
    rule: "some reported query connects two different nodes and (with travel times which vary) its answer depends on the departure, on live data or on a forbidden turn",
    subs: &[
        Sub { name: "fixed", f: fixed, quick: 20_000, thorough: 1_200_000, big: false },
        Sub { name: "turns", f: turns, quick: 16_000, thorough: 1_000_000, big: false },
        Sub { name: "verdicts", f: verdicts, quick: 12_000, thorough: 800_000, big: false },
        Sub { name: "predicted", f: predicted, quick: 8_000, thorough: 500_000, big: false },
        Sub { name: "live", f: live, quick: 8_000, thorough: 500_000, big: false },
        Sub { name: "catchup", f: catchup, quick: 10_000, thorough: 500_000, big: false },
    ],
};

const QUERIES: usize = 12;

fn start(name: &str, args: &[&str]) -> Output {
    let mut cmd = Command::new(tool(name));
    // the programs bind themselves to the first processor
    if let Some(shim) = tool("libunpinned.so").to_str().filter(|p| Path::new(p).exists()) {
        cmd.env("LD_PRELOAD", shim);
    }
    cmd.args(args)
        .env("CHPOT_NUM_QUERIES", QUERIES.to_string())
        .env("NUM_DIJKSTRA_QUERIES", QUERIES.to_string())
        .env("RAYON_NUM_THREADS", "1")
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("cannot start {}: {}", name, e))
}

fn work(name: &str, args: &[&str]) -> Result<String, String> {
    let out = start(name, args);
    ensure!(out.status.success(), "{} {:?} failed with {}: {}", name, &args[1..], out.status, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>());
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// All objects of a report which describe a query.
fn reported(name: &str, text: &str) -> Result<Vec<Value>, String> {
    fn walk(v: &Value, found: &mut Vec<Value>) {
        match v {
            Value::Array(a) => a.iter().for_each(|v| walk(v, found)),
            Value::Object(o) => {
                if o.contains_key("from") && o.contains_key("to") {
                    found.push(v.clone());
                } else {
                    o.values().for_each(|v| walk(v, found));
                }
            }
            _ => (),
        }
    }
    let v: Value = serde_json::from_str(text.trim()).map_err(|e| format!("{}: the report is no JSON ({}): {:.300}", name, e, text))?;
    let mut found = Vec::new();
    walk(&v, &mut found);
    Ok(found)
}

fn num(name: &str, v: &Value, key: &str) -> Result<u64, String> {
    v[key].as_u64().ok_or_else(|| format!("{}: no number {} in {}", name, key, v))
}

fn put_ch(dir: &Path, g: &G, order: NodeOrder) {
    let dir = dir.join("lower_bound_ch");
    std::fs::create_dir_all(&dir).unwrap();
    let (fw, bw) = overlay(&g.owned(), order.clone(), g.n);
    put(&dir, "forward_first_out", fw.first_out());
    put(&dir, "forward_head", fw.head());
    put(&dir, "forward_weight", fw.weight());
    put(&dir, "backward_first_out", bw.first_out());
    put(&dir, "backward_head", bw.head());
    put(&dir, "backward_weight", bw.weight());
    put(&dir, "order", order.order());
}

fn s(p: &Path) -> &str {
    p.to_str().unwrap()
}

/// Check the answers of a program for shortest distances on g.
fn check_fixed(c: &mut Case, name: &str, text: &str, g: &G, count: usize) -> Result<(), String> {
    let queries = reported(name, text)?;
    ensure_eq!(queries.len(), count, "{}: number of reported queries", name);
    let dists = g.all_dists();
    for q in &queries {
        let (from, to) = (num(name, q, "from")?, num(name, q, "to")?);
        ensure!((from as usize) < g.n && (to as usize) < g.n, "{}: query {}", name, q);
        let want = dists[from as usize][to as usize];
        if want == INF {
            ensure!(q["result"].is_null(), "{}: {} is unreachable from {} but the result is {}", name, to, from, q["result"]);
        } else {
            ensure_eq!(q["result"].as_u64(), Some(want), "{}: result from {} to {}", name, from, to);
            if from != to {
                c.nontrivial();
            }
        }
    }
    Ok(())
}

/// Travel times of the moment: mostly some are higher than usual.
fn live_weights(c: &mut Case, g: &G) -> Vec<u32> {
    let hi = *c.pick(&[2u32, 30, 100_000]);
    g.edges
        .iter()
        .map(|e| match c.draw(3) {
            0 => e.2,
            1 => c.u32(0, hi),
            2 => e.2.saturating_add(c.u32(0, hi)).min(INFINITY / 64),
            _ => 0,
        })
        .collect()
}

fn slowed(g: &G, live: &[u32]) -> G {
    G { n: g.n, edges: g.edges.iter().zip(live).map(|(e, &l)| (e.0, e.1, e.2.max(l))).collect() }
}

fn fixed(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { max_n: 12, ..CFG });
    let dir = Scratch::new();
    put_graph(&dir.0, &g, "travel_time");
    let ord = order(c, &g);
    let live = live_weights(c, &g);
    c.note(|| format!("{} order {:?} live travel times {:?}", g.desc(), ord.order(), live));
    put(&dir.0, "live_travel_time", &live);
    put(&dir.0, "cch_perm", ord.order());
    let hurried = slowed(&g, &live);
    put_ch(&dir.0, &g, ord);
    for _ in 0..2 {
        let (name, g, count) = match c.draw(7) {
            5 | 6 => {
                blocked(c, &g, &dir.0)?;
                continue;
            }
            7 => {
                ranks(c, &g, &dir.0)?;
                continue;
            }
            0 => ("dijkstra", &g, QUERIES),
            1 => ("chpot_unmodified", &g, 2 * QUERIES),
            2 => ("chpot_live", &hurried, 2 * QUERIES),
            3 => ("bidir_chpot_live", &hurried, 2 * QUERIES),
            _ => ("cchpot_live", &hurried, 2 * QUERIES),
        };
        c.label(name);
        c.note(|| name.to_string());
        let text = work(name, &[s(&dir.0)])?;
        check_fixed(c, name, &text, g, count)?;
    }
    Ok(())
}

/// Without tunnels (categories with bit 0) and then without highways (bit 1).
fn blocked(c: &mut Case, g: &G, dir: &Path) -> Result<(), String> {
    let name = *c.pick(&["chpot_blocked", "bidir_chpot_blocked"]);
    c.label(name);
    let category: Vec<u8> = g.edges.iter().map(|_| *c.pick(&[0u8, 1, 2, 3, 4, 0])).collect();
    c.note(|| format!("{}: categories {:?}", name, category));
    put(dir, "arc_category", &category);
    let text = work(name, &[s(dir)])?;
    let v: Value = serde_json::from_str(text.trim()).map_err(|e| format!("{}: the report is no JSON ({})", name, e))?;
    let parts = v["experiments"].as_array().ok_or_else(|| format!("{}: no experiments in the report", name))?;
    ensure_eq!(parts.len(), 2, "{}: number of experiments", name);
    for (bit, part) in [1u8, 2].iter().zip(parts) {
        let open = G { n: g.n, edges: g.edges.iter().zip(&category).filter(|(_, c)| **c & bit == 0).map(|(e, _)| *e).collect() };
        check_fixed(c, name, &part.to_string(), &open, 2 * QUERIES)?;
    }
    Ok(())
}

/// Every power of two of the number of nodes reached, on a graph where everything takes half as long again.
fn ranks(c: &mut Case, g: &G, dir: &Path) -> Result<(), String> {
    let name = "chpot_dijkstra_ranks";
    if g.edges.iter().any(|e| e.2 > 50_000_000) {
        return Ok(());
    }
    c.label(name);
    c.note(|| name.to_string());
    let text = work(name, &[s(dir)])?;
    let slow = G { n: g.n, edges: g.edges.iter().map(|e| (e.0, e.1, e.2 * 15 / 10)).collect() };
    let found = reported(name, &text)?;
    check_fixed(c, name, &text, &slow, found.len())?;
    let dists = g.all_dists();
    let mut i = 0;
    let mut sources = 0;
    while i < found.len() {
        let from = num(name, &found[i], "from")? as usize;
        let mut sorted: Vec<u64> = dists[from].iter().copied().filter(|&d| d != INF).collect();
        sorted.sort_unstable();
        let mut pos = 1;
        let mut rank = 0;
        while pos <= sorted.len() {
            ensure!(i < found.len(), "{}: the ranks of {} are incomplete", name, from);
            let to = num(name, &found[i], "to")? as usize;
            ensure!(found[i]["from"].as_u64() == Some(from as u64) && found[i]["rank"].as_u64() == Some(rank), "{}: rank {} of {} expected but found {}", name, rank, from, found[i]);
            ensure!(dists[from][to] == sorted[pos - 1], "{}: {} is not the node number {} from {}: {:?}", name, to, pos, from, dists[from]);
            // not every search needs it
            if let Some(bound) = found[i]["lower_bound"].as_u64() {
                ensure!(bound <= dists[from][to], "{}: lower bound from {} to {} is {}, the distance {}", name, from, to, bound, dists[from][to]);
            }
            pos *= 2;
            rank += 1;
            i += 1;
        }
        sources += 1;
    }
    ensure_eq!(sources, QUERIES, "{}: number of sources", name);
    Ok(())
}

/// The graph of arcs: turning from one to the next takes the time of the first.
fn arc_graph(g: &G, forbidden: &dyn Fn(u32, u32) -> bool) -> G {
    let mut edges = Vec::new();
    for (i, a) in g.edges.iter().enumerate() {
        for (j, b) in g.edges.iter().enumerate() {
            if a.1 == b.0 && !forbidden(i as u32, j as u32) {
                edges.push((i as u32, j as u32, a.2));
            }
        }
    }
    G { n: g.m(), edges }
}

fn turns(c: &mut Case) -> Result<(), String> {
    let mut g = graph(c, &Cfg { min_n: 2, max_n: 8, ..CFG });
    if g.edges.is_empty() {
        g.edges.push((0, 1, 1));
    }
    let m = g.m() as u32;
    let dir = Scratch::new();
    put_graph(&dir.0, &g, "travel_time");
    let mut closed = std::collections::BTreeSet::new();
    let density = c.u32(0, 4);
    for i in 0..m {
        for j in 0..m {
            if g.edges[i as usize].1 == g.edges[j as usize].0 && c.u32(0, 9) < density {
                closed.insert((i, j));
            }
        }
    }
    for _ in 0..c.size(0, 2) {
        // no turns at all, at least most of the time
        closed.insert((c.u32(0, m - 1), c.u32(0, m - 1)));
    }
    let ord = order(c, &g);
    let live = live_weights(c, &g);
    c.note(|| format!("{} order {:?} live travel times {:?} forbidden turns {:?}", g.desc(), ord.order(), live, closed));
    put(&dir.0, "forbidden_turn_from_arc", &closed.iter().map(|t| t.0).collect::<Vec<u32>>());
    put(&dir.0, "forbidden_turn_to_arc", &closed.iter().map(|t| t.1).collect::<Vec<u32>>());
    put(&dir.0, "live_travel_time", &live);
    put(&dir.0, "cch_perm", ord.order());
    put_ch(&dir.0, &g, ord);
    let hurried = slowed(&g, &live);
    for _ in 0..2 {
        let (name, g) = match c.draw(4) {
            3 => {
                expand(c, &g, &dir.0, &|i, j| if closed.contains(&(i, j)) || g.edges[i as usize].0 == g.edges[j as usize].1 { None } else { Some(0) }, "turn_expand_osm")?;
                continue;
            }
            4 => {
                let units = *c.pick(&[1u32, 1000, 10]);
                put(&dir.0, "tt_units_per_s", &[units]);
                expand(c, &g, &dir.0, &|i, j| Some(if g.edges[i as usize].0 == g.edges[j as usize].1 { 100 * units } else { 0 }), "turn_expand_100s_uturn")?;
                ensure_eq!(read(&dir.path("expanded"), "tt_units_per_s")?, vec![units], "tt_units_per_s");
                continue;
            }
            0 => ("chpot_turns", &g),
            1 => ("bidir_chpot_turns", &g),
            _ => ("cchpot_live_turns", &hurried),
        };
        c.label(name);
        c.note(|| name.to_string());
        let exp = arc_graph(g, &|i, j| closed.contains(&(i, j)) || g.edges[i as usize].0 == g.edges[j as usize].1);
        let text = work(name, &[s(&dir.0)])?;
        check_fixed(c, name, &text, &exp, 2 * QUERIES)?;
    }
    Ok(())
}

fn expand(c: &mut Case, g: &G, dir: &Path, cost: &dyn Fn(u32, u32) -> Option<u32>, name: &str) -> Result<(), String> {
    c.label(if name == "turn_expand_osm" { "turn_expand_osm" } else { "turn_expand_100s_uturn" });
    let (lat, lon): (Vec<f32>, Vec<f32>) = (0..g.n).map(|_| (c.u32(0, 80) as f32 / 8.0, c.u32(0, 80) as f32 / 8.0)).unzip();
    c.note(|| format!("{} latitude {:?} longitude {:?}", name, lat, lon));
    put(dir, "latitude", &lat);
    put(dir, "longitude", &lon);
    let out = dir.join("expanded");
    std::fs::create_dir_all(&out).unwrap();
    work(name, &[s(dir), s(&out)])?;
    let (first_out, head, weight) = (read(&out, "first_out")?, read(&out, "head")?, read(&out, "travel_time")?);
    ensure!(first_out.len() == g.m() + 1 && first_out[0] == 0 && first_out[g.m()] as usize == head.len() && head.len() == weight.len() && first_out.windows(2).all(|w| w[0] <= w[1]),
        "{}: first_out {:?} with {} heads and {} weights", name, first_out, head.len(), weight.len());
    for (i, a) in g.edges.iter().enumerate() {
        let mut want: Vec<(u32, u32)> = (0..g.m() as u32).filter(|&j| g.edges[j as usize].0 == a.1).filter_map(|j| cost(i as u32, j).map(|x| (j, a.2 + x))).collect();
        let mut got: Vec<(u32, u32)> = (first_out[i] as usize..first_out[i + 1] as usize).map(|k| (head[k], weight[k])).collect();
        want.sort_unstable();
        got.sort_unstable();
        ensure_eq!(got, want, "{}: turns from arc {}", name, i);
    }
    for (file, node) in [("latitude", &lat), ("longitude", &lon)] {
        let want: Vec<u32> = g.edges.iter().map(|e| node[e.0 as usize].to_bits()).collect();
        ensure_eq!(read(&out, file)?, want, "{}: {} (bits)", name, file);
    }
    if head.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Programs which compare with known answers accept the right ones and only these.
fn verdicts(c: &mut Case) -> Result<(), String> {
    let mut g = graph(c, &Cfg { min_n: 2, max_n: 10, ..CFG });
    let dir = Scratch::new();
    let name = *c.pick(&["cch", "test_cch_paths", "cch_with_turns"]);
    if name == "cch_with_turns" && g.edges.is_empty() {
        g.edges.push((0, 1, 1));
    }
    put_graph(&dir.0, &g, "travel_time");
    let exp = if name == "cch_with_turns" { arc_graph(&g, &|_, _| false) } else { g.clone() };
    let ord = order(c, &exp);
    put(&dir.0, if name == "cch_with_turns" { "cch_exp_perm" } else { "cch_perm" }, ord.order());
    let dists = exp.all_dists();
    let k = c.size(1, 12);
    let (mut from, mut to, mut want) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0..k {
        let (a, b) = (c.u32(0, exp.n as u32 - 1), c.u32(0, exp.n as u32 - 1));
        from.push(a);
        to.push(b);
        let d = dists[a as usize][b as usize];
        if d != INF && a != b {
            c.nontrivial();
        }
        want.push(if d == INF { INFINITY } else { d as u32 });
    }
    let wrong = c.chance(1, 3);
    if wrong {
        let i = c.size(0, k - 1);
        want[i] = if want[i] == INFINITY { c.u32(0, 5) } else if c.chance(1, 4) { INFINITY } else { want[i] + 1 };
    }
    c.note(|| format!("{}: {} order {:?} from {:?} to {:?} known distances {:?}", name, g.desc(), ord.order(), from, to, want));
    let (dir_test, prefix) = (dir.path("test"), if name == "cch_with_turns" { "exp_" } else { "" });
    std::fs::create_dir(&dir_test).unwrap();
    put(&dir_test, &format!("{}source", prefix), &from);
    put(&dir_test, &format!("{}target", prefix), &to);
    put(&dir_test, &format!("{}travel_time_length", prefix), &want);
    c.label(name);
    if wrong {
        c.label("wrong");
        ensure!(!start(name, &[s(&dir.0)]).status.success(), "{} accepts wrong distances", name);
    } else {
        work(name, &[s(&dir.0)])?;
    }
    Ok(())
}

fn tdg(c: &mut Case) -> TdG {
    let cfg = Cfg { min_n: 2, max_n: 8, parallel: false, loops: false, ..CFG };
    let mut g = graph(c, &cfg);
    if g.edges.is_empty() {
        g.edges.push((0, 1, 1));
    }
    td_fl(c, &g, 4, 7_200_000, 1)
}

/// Check answers which depend on the departure. `slack`: the potential does not have to be exact.
fn check_td(c: &mut Case, name: &str, text: &str, tdg: &TdG, ev: &dyn Fn(usize, u64) -> u64, slack: u64, want: Option<&[(u32, u32, u32)]>, counts: bool) -> Result<(), String> {
    let queries = reported(name, text)?;
    if let Some(want) = want {
        ensure_eq!(queries.len(), want.len(), "{}: number of reported queries", name);
    }
    for (i, q) in queries.iter().enumerate() {
        let (from, to, at) = (num(name, q, "from")?, num(name, q, "to")?, num(name, q, "at")?);
        if let Some(want) = want {
            ensure_eq!((from as u32, to as u32, at as u32), want[i], "{}: reported query", name);
        }
        ensure!((from as usize) < tdg.n && (to as usize) < tdg.n && at < P as u64, "{}: query {}", name, q);
        let arrival = tdg.arrivals(from as u32, at, &|e, t| Some(ev(e, t)))[to as usize];
        if arrival == INF {
            ensure!(q["result"].is_null(), "{}: {} is unreachable from {} but the result is {}", name, to, from, q["result"]);
        } else {
            let got = q["result"].as_u64().ok_or_else(|| format!("{}: from {} to {} at {} takes {} but the result is {}", name, from, to, at, arrival - at, q["result"]))?;
            ensure!(got >= arrival - at && got <= arrival - at + slack, "{}: from {} to {} at {} takes {} but the result is {}", name, from, to, at, arrival - at, got);
            if from != to && counts {
                c.nontrivial();
            }
        }
    }
    Ok(())
}

fn read(dir: &Path, name: &str) -> Result<Vec<u32>, String> {
    let b = std::fs::read(dir.join(name)).map_err(|e| format!("{}: {}", name, e))?;
    ensure!(b.len() % 4 == 0, "{}: {} bytes", name, b.len());
    Ok(b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}

fn td_queries(c: &mut Case, tdg: &TdG, fixed_at: Option<u32>) -> Vec<(u32, u32, u32)> {
    let n = tdg.n as u32;
    let raws: Vec<&Raw> = tdg.edges.iter().map(|e| &e.2).collect();
    (0..c.size(1, QUERIES))
        .map(|_| (c.u32(0, n - 1), c.u32(0, n - 1), fixed_at.unwrap_or_else(|| if raws.is_empty() { c.u32(0, P - 1) } else { instant(c, &raws) })))
        .collect()
}

fn put_queries(dir: &Path, name: &str, keys: [&str; 3], q: &[(u32, u32, u32)]) {
    let dir = dir.join(name);
    std::fs::create_dir_all(&dir).unwrap();
    put(&dir, keys[0], &q.iter().map(|q| q.0).collect::<Vec<u32>>());
    put(&dir, keys[1], &q.iter().map(|q| q.1).collect::<Vec<u32>>());
    put(&dir, keys[2], &q.iter().map(|q| q.2).collect::<Vec<u32>>());
}

/// Make queries with one of the generating programs and check that they are what they should be.
fn generated(c: &mut Case, dir: &Path, tdg: &TdG) -> Result<(&'static str, Vec<(u32, u32, u32)>), String> {
    let (prog, name) = *c.pick(&[("generate_rand_queries", "uniform"), ("generate_rank_queries", "rank"), ("generate_1h_queries", "1h"), ("generate_4h_queries", "4h")]);
    let qdir = dir.join("queries").join(name);
    std::fs::create_dir_all(&qdir).unwrap();
    work(prog, &[s(dir), "6"])?;
    let (from, to, at) = (read(&qdir, "source")?, read(&qdir, "target")?, read(&qdir, "departure")?);
    ensure!(from.len() == to.len() && to.len() == at.len(), "{}: {} sources, {} targets, {} departures", prog, from.len(), to.len(), at.len());
    let q: Vec<(u32, u32, u32)> = (0..from.len()).map(|i| (from[i], to[i], at[i])).collect();
    let n = tdg.n as u32;
    ensure!(q.iter().all(|q| q.0 < n && q.1 < n && q.2 < P), "{}: queries {:?} for {} nodes", prog, q, n);
    let ranks = if name == "rank" { read(&qdir, "rank")? } else { Vec::new() };
    if name == "rank" {
        ensure_eq!(ranks.len(), q.len(), "{}: number of ranks", prog);
    }
    let mut groups = std::collections::BTreeMap::new();
    for (i, &(from, to, at)) in q.iter().enumerate() {
        let arrivals = tdg.arrivals(from, at as u64, &|e, t| Some(eval(&tdg.edges[e].2, t)));
        let a = arrivals[to as usize];
        let mut sorted: Vec<u64> = arrivals.iter().copied().filter(|&a| a != INF).collect();
        sorted.sort_unstable();
        let hours = match name {
            "1h" => 1,
            "4h" => 4,
            "rank" => {
                let pos = (1usize << ranks[i]) - 1;
                ensure!(pos < sorted.len() && sorted[pos] == a, "{}: {} is not the node number {} when starting at {} at {}: {:?}", prog, to, pos + 1, from, at, arrivals);
                groups.entry((from, at)).or_insert_with(|| (Vec::new(), sorted.len())).0.push(ranks[i]);
                continue;
            }
            _ => continue,
        };
        // the first node which is farther away
        let limit = at as u64 + hours * 3_600_000;
        let first = sorted.iter().copied().find(|&x| x > limit);
        ensure!(a != INF && Some(a) == first, "{}: from {} to {} at {} takes {:?}, the first node beyond {} hours {:?}", prog, from, to, at, a.checked_sub(at as u64), hours, first.map(|f| f - at as u64));
    }
    match name {
        "uniform" => ensure_eq!(q.len(), 6, "{}: number of queries", prog),
        "rank" => {
            // (a source and departure may be drawn twice)
            let mut total = 0;
            for ((from, at), (mut ranks, reached)) in groups {
                ranks.sort_unstable();
                let per = (reached as u32).ilog2() as usize + 1;
                ensure!(ranks.len() % per == 0, "{}: ranks {:?} from {} at {}, {} nodes are reached", prog, ranks, from, at, reached);
                let times = ranks.len() / per;
                ensure!(ranks.iter().enumerate().all(|(i, &r)| r as usize == i / times), "{}: ranks {:?} from {} at {}, {} nodes are reached", prog, ranks, from, at, reached);
                total += times;
            }
            ensure_eq!(total, 6, "{}: number of sources", prog);
        }
        _ => ensure!(q.len() <= 6, "{}: {} queries", prog, q.len()),
    }
    c.label(prog);
    Ok((name, q))
}

fn varied(tdg: &TdG) -> bool {
    tdg.edges.iter().any(|e| e.2.iter().any(|p| p.1 != e.2[0].1))
}

fn predicted(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let dir = Scratch::new();
    put_td(&dir.0, &tdg);
    let lower = tdg.lower();
    let ord = order(c, &lower);
    c.note(|| format!("{} order {:?}", tdg.desc(), ord.order()));
    put(&dir.0, "cch_perm", ord.order());
    put_ch(&dir.0, &lower, ord);
    let ev = |e: usize, t: u64| eval(&tdg.edges[e].2, t);
    match c.weighted(&[1, 1, 6, 1]) {
        3 => {
            let (now, soon) = (43_200_000u32, 46_800_000u64);
            let now_values: Vec<u32> = tdg.edges.iter().map(|e| if c.coin() { 0 } else { crate::c13::live_value(c, &e.2, now) }).collect();
            c.label("chpot_td_live");
            c.note(|| format!("chpot_td_live {:?}", now_values));
            put(&dir.0, "live_travel_time", &now_values);
            let text = work("chpot_td_live", &[s(&dir.0)])?;
            ensure_eq!(reported("chpot_td_live", &text)?.len(), 2 * QUERIES, "chpot_td_live: number of reported queries");
            let ev = |e: usize, t: u64| {
                let pred = ev(e, t);
                let v = now_values[e] as u64;
                if v < lower.edges[e].2 as u64 {
                    pred
                } else if t < soon {
                    v
                } else if eval(&tdg.edges[e].2, soon) < v {
                    pred.max((v + soon).saturating_sub(t))
                } else {
                    pred.min(v + t - soon)
                }
            };
            return check_td(c, "chpot_td_live", &text, &tdg, &ev, 0, None, true);
        }
        0 => {
            c.label("td_dijkstra");
            let q = td_queries(c, &tdg, None);
            c.note(|| format!("td_dijkstra {:?}", q));
            put_queries(&dir.0, "uniform_queries", ["source_node", "target_node", "source_time"], &q);
            let text = work("td_dijkstra", &[s(&dir.0)])?;
            return check_td(c, "td_dijkstra", &text, &tdg, &ev, 0, Some(&q), varied(&tdg));
        }
        1 => {
            c.label("chpot_td");
            c.note(|| "chpot_td".to_string());
            let text = work("chpot_td", &[s(&dir.0)])?;
            ensure_eq!(reported("chpot_td", &text)?.len(), 2 * QUERIES, "chpot_td: number of reported queries");
            return check_td(c, "chpot_td", &text, &tdg, &ev, 0, None, varied(&tdg));
        }
        _ => (),
    }
    let (name, mut queries) = if c.chance(1, 3) {
        let (name, q) = generated(c, &dir.0, &tdg)?;
        (format!("queries/{}", name), q)
    } else {
        let q = td_queries(c, &tdg, None);
        put_queries(&dir.0, "asked", ["source", "target", "departure"], &q);
        ("asked".to_string(), q)
    };
    queries.truncate(QUERIES);
    c.note(|| format!("queries {:?}", queries));
    for _ in 0..2 {
        let prog = *c.pick(&["predicted_queries", "predicted_queries_no_topo"]);
        let pot = *c.pick(&["interval_min_pot", "multi_metric_pot", "zero", "ch_potentials", "cch"]);
        c.label(pot);
        c.note(|| format!("{} with {}", prog, pot));
        let (mut pre_out, mut pot_out) = (Vec::new(), pot.to_string());
        let other = c.coin();
        if other {
            pre_out.push("pre".to_string());
            pot_out = "other_pot".to_string();
            pre_out.push(pot_out.clone());
        }
        let mut args = vec![s(&dir.0)];
        args.extend(pre_out.iter().map(|a| &a[..]));
        match pot {
            "interval_min_pot" => {
                std::fs::create_dir_all(dir.path(if other { "pre" } else { "customized_corridor_mins" })).unwrap();
                std::fs::create_dir_all(dir.path(&pot_out)).unwrap();
                work("interval_min_pre", &args)?;
                if c.coin() {
                    // again from what is stored
                    work("interval_min_build", &args)?;
                }
            }
            "multi_metric_pot" => {
                std::fs::create_dir_all(dir.path(if other { "pre" } else { "multi_metric_pre" })).unwrap();
                std::fs::create_dir_all(dir.path(&pot_out)).unwrap();
                if other && c.coin() {
                    args.push(*c.pick(&["1", "3", "8"]));
                }
                work("multi_metric_pre", &args)?;
            }
            _ => (),
        }
        let mut args = vec![s(&dir.0), &name, pot];
        if other {
            args.push(&pot_out);
        }
        let text = work(prog, &args)?;
        let slack = if pot == "interval_min_pot" { tdg.n as u64 } else { 0 };
        check_td(c, prog, &text, &tdg, &ev, slack, Some(&queries), varied(&tdg))?;
    }
    Ok(())
}

fn live(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let dir = Scratch::new();
    put_td(&dir.0, &tdg);
    let lower = tdg.lower();
    let ord = order(c, &lower);
    put(&dir.0, "cch_perm", ord.order());
    c.note(|| format!("{} order {:?}", tdg.desc(), ord.order()));
    put_ch(&dir.0, &lower, ord);
    let now = crate::c13::live_time(c).min(P - 1 - 18_000_000);
    let m = tdg.edges.len() as u32;
    let mut reports = vec![None; m as usize];
    let mut data = Vec::new();
    if c.chance(1, 3) {
        // from measured speeds
        let mut csv = "from;to;speed;distance;duration\n".to_string();
        for _ in 0..c.size(0, 6) {
            let e = c.size(0, m as usize - 1);
            let (mut a, mut b) = (tdg.edges[e].0, tdg.edges[e].1);
            if c.chance(1, 6) {
                a = c.u32(0, tdg.n as u32 - 1);
                b = c.u32(0, tdg.n as u32 - 1);
            }
            let speed = if c.chance(1, 6) { 0 } else { c.u32(1, 130) };
            let length = c.u32(0, 30_000);
            let duration = if c.chance(1, 10) { *c.pick(&[86_400u32, 86_399, 5_000_000]) } else { *c.pick(&[3600u32, 600, 60, 1]) * c.u32(0, 3) };
            csv += &format!("{};{};{};{};{}\n", a, b, speed, length, duration);
            if let Some(e) = tdg.edges.iter().position(|e| (e.0, e.1) == (a, b)) {
                data.push((e as u32, if speed == 0 { INFINITY } else { 3600 * length / speed }, duration.saturating_mul(1000)));
            }
        }
        c.note(|| format!("measured {:?}", csv));
        std::fs::write(dir.path("measured.csv"), csv).unwrap();
        let file = dir.path("measured.csv");
        work("ptv_ti_to_live", &[s(&dir.0), s(&file)])?;
        let flat: Vec<u32> = data.iter().flat_map(|d| [d.0, d.1, d.2]).collect();
        ensure_eq!(read(&dir.0, "live_data")?, flat, "ptv_ti_to_live: arcs, travel times and durations");
        c.label("ptv_ti_to_live");
    } else {
        let r = crate::c13::reports(c, &tdg, now);
        for (e, r) in r.iter().enumerate() {
            if let Some((v, until)) = r {
                data.push((e as u32, *v, until - now));
            }
        }
        if c.chance(1, 4) {
            // so long that it is no longer a live report
            data.push((c.u32(0, m - 1), c.u32(0, 5_000), P + c.u32(0, 1000)));
        }
        put(&dir.0, "live_data", &data.iter().flat_map(|d| [d.0, d.1, d.2]).collect::<Vec<u32>>());
    }
    for d in &data {
        if d.2 < P {
            reports[d.0 as usize] = Some((d.1, d.2 + now));
        }
    }
    let queries = td_queries(c, &tdg, Some(now));
    put_queries(&dir.0, "asked", ["source", "target", "departure"], &queries);
    c.note(|| format!("live at {}: {:?}, queries {:?}", now, data, queries));
    let ev = |e: usize, t: u64| crate::c13::pess_eval(&tdg.edges[e].2, reports[e], t);
    let at = now.to_string();
    for _ in 0..2 {
        let prog = *c.pick(&["live_and_predicted_queries", "live_and_predicted_queries_no_topo"]);
        let pot = *c.pick(&["interval_min_pot", "multi_metric_pot", "zero", "ch_potentials", "cch"]);
        c.label(pot);
        c.note(|| format!("{} with {}", prog, pot));
        let dirs = match pot {
            "interval_min_pot" => Some(("interval_min_pre", "customized_corridor_mins", "interval_min_live_customization")),
            "multi_metric_pot" => Some(("multi_metric_pre", "multi_metric_pre", "multi_metric_live_customization")),
            _ => None,
        };
        if let Some((first, pre, second)) = dirs {
            std::fs::create_dir_all(dir.path(pre)).unwrap();
            std::fs::create_dir_all(dir.path(pot)).unwrap();
            work(first, &[s(&dir.0)])?;
            work(second, &[s(&dir.0), &at, "live_data"])?;
        }
        let text = work(prog, &[s(&dir.0), &at, "live_data", "asked", pot])?;
        let slack = if pot == "interval_min_pot" { tdg.n as u64 } else { 0 };
        check_td(c, prog, &text, &tdg, &ev, slack, Some(&queries), reports.iter().any(|r| r.is_some()))?;
    }
    Ok(())
}

fn catchup(c: &mut Case) -> Result<(), String> {
    let net = c15::net(c);
    let tdg = &net.tdg;
    let dir = Scratch::new();
    put_td(&dir.0, tdg);
    let ord = order(c, &tdg.lower());
    c.note(|| format!("order {:?}", ord.order()));
    put(&dir.0, "cch_perm", ord.order());
    let (lat, lon): (Vec<f32>, Vec<f32>) = (0..tdg.n).map(|_| (c.u32(0, 8) as f32 / 8.0, c.u32(0, 8) as f32 / 8.0)).unzip();
    put(&dir.0, "latitude", &lat);
    put(&dir.0, "longitude", &lon);
    for d in ["cch", "customized"] {
        std::fs::create_dir(dir.path(d)).unwrap();
    }
    work("tdcch_static_preprocessing", &[s(&dir.0)])?;
    work("tdcch_customization", &[s(&dir.0)])?;
    let queries = td_queries(c, tdg, None);
    let rank = c.coin();
    let (prog, name) = if rank { ("tdcch_pregen_rank_queries", "rank_queries") } else { ("tdcch_pregen_uniform_queries", "uniform_queries") };
    c.label(prog);
    c.note(|| format!("{} {:?}", prog, queries));
    put_queries(&dir.0, name, ["source_node", "target_node", "source_time"], &queries);
    if rank {
        // the number of the query, to find it again
        put(&dir.path(name), "dij_rank", &(0..queries.len() as u32).collect::<Vec<u32>>());
    }
    let text = work(prog, &[s(&dir.0)])?;
    let mut found = reported(prog, &text)?;
    ensure_eq!(found.len(), queries.len(), "{}: number of reported queries", prog);
    if rank {
        found.sort_by_key(|q| q["rank"].as_u64());
    }
    for (q, &(from, to, at)) in found.iter().zip(&queries) {
        ensure_eq!((num(prog, q, "from")? as u32, num(prog, q, "to")? as u32), (from, to), "{}: reported query", prog);
        let dep = at as f64 / 1000.0;
        ensure!(q["departure_time"].as_f64().map_or(false, |t| (t - dep).abs() < 1e-6), "{}: departure {} in {}", prog, dep, q);
        let want = net.arrivals(from, dep)[to as usize];
        if want.is_infinite() {
            ensure!(q["earliest_arrival"].is_null(), "{}: {} is unreachable from {} but the arrival is {}", prog, to, from, q["earliest_arrival"]);
        } else {
            let got = q["earliest_arrival"].as_f64().ok_or_else(|| format!("{}: no arrival in {} but it should be {}", prog, q, want))?;
            ensure!((got - want).abs() <= c15::TOL, "{}: from {} to {} at {} the arrival is {} but should be {}", prog, from, to, dep, got, want);
            if from != to && varied(tdg) {
                c.nontrivial();
            }
        }
    }
    Ok(())
}
