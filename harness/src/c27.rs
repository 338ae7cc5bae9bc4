//! Command line tools as real processes: utilities (C27) and conversion programs (C28).

use crate::c17::Scratch;
use crate::c23;
use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::{self, TdG};
use conversion::here::csv_source::CSVSource;
use conversion::here::link_id_mapper::*;
use conversion::here::read_graph;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::rank_select_map::*;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fmt::{Debug, Write as _};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::str::FromStr;

pub static PROP: Property = Property {
    id: "C27",
    rule: "vectors with at least two different elements / an order which is not its own inverse / some arcs inside and some outside of the box / functions with several points / a target beyond one hour",
    subs: &[
        Sub { name: "vectors", f: vectors, quick: 12_000, thorough: 1_000_000, big: false },
        Sub { name: "orders", f: orders, quick: 10_000, thorough: 1_000_000, big: false },
        Sub { name: "graphs", f: graphs, quick: 10_000, thorough: 1_000_000, big: false },
        Sub { name: "functions", f: functions, quick: 10_000, thorough: 1_000_000, big: false },
        Sub { name: "queries", f: queries, quick: 8_000, thorough: 500_000, big: false },
        Sub { name: "traffic", f: traffic, quick: 3_000, thorough: 200_000, big: false },
    ],
};

pub static PROP28: Property = Property {
    id: "C28",
    rule: "the box excludes something / functions with several points / at least one measured speed applies to an arc",
    subs: &[
        Sub { name: "here", f: here, quick: 8_000, thorough: 600_000, big: false },
        Sub { name: "tpgr", f: tpgr, quick: 16_000, thorough: 1_000_000, big: false },
        Sub { name: "exports", f: exports, quick: 12_000, thorough: 800_000, big: false },
        Sub { name: "demands", f: demands, quick: 10_000, thorough: 800_000, big: false },
        Sub { name: "live", f: live, quick: 10_000, thorough: 800_000, big: false },
        Sub { name: "profiles", f: profiles, quick: 8_000, thorough: 500_000, big: false },
        Sub { name: "scrub", f: scrub, quick: 10_000, thorough: 800_000, big: false },
        Sub { name: "gps", f: gps, quick: 8_000, thorough: 500_000, big: false },
    ],
};

pub fn tool(name: &str) -> PathBuf {
    match std::env::var("RRR_TOOLS") {
        Ok(p) => PathBuf::from(p).join(name),
        Err(_) => PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("target-tools/debug").join(name),
    }
}

fn run<S: AsRef<OsStr>>(name: &str, args: &[S], input: &str) -> Output {
    let mut child = Command::new(tool(name))
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {}: {}", name, e));
    // tools which do not read the whole input close the pipe
    let mut pipe = child.stdin.take().unwrap();
    let text = input.to_owned();
    let feeder = if text.len() > 30_000 {
        Some(std::thread::spawn(move || {
            let _ = pipe.write_all(text.as_bytes());
        }))
    } else {
        let _ = pipe.write_all(text.as_bytes());
        drop(pipe);
        None
    };
    let out = child.wait_with_output().unwrap();
    if let Some(f) = feeder {
        f.join().unwrap();
    }
    out
}

/// Run a tool that has to succeed.
fn works<S: AsRef<OsStr>>(name: &str, args: &[S], input: &str) -> Result<String, String> {
    let out = run(name, args, input);
    ensure!(out.status.success(), "{} failed with {}: {}", name, out.status, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>());
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

pub trait Elem: Copy + PartialEq + PartialOrd + Debug + ToString + FromStr + 'static {
    fn gen(c: &mut Case) -> Self;
    fn raw(&self) -> Vec<u8>;
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Elem for $t {
            fn gen(c: &mut Case) -> Self {
                match c.draw(3) {
                    0 => c.draw(3) as $t,
                    1 => <$t>::MAX - c.draw(2) as $t,
                    2 => <$t>::MIN + c.draw(2) as $t,
                    _ => c.range(0, u64::MAX - 1) as $t,
                }
            }
            fn raw(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        }
    )* };
}
ints!(i8, u8, i16, u16, i32, u32, i64, u64);

macro_rules! floats {
    ($($t:ty, $u:ty);*) => { $(
        impl Elem for $t {
            fn gen(c: &mut Case) -> Self {
                match c.draw(3) {
                    0 => c.draw(3) as $t,
                    1 => (c.range(0, 2_000_000) as $t - 1_000_000.0) / 1000.0,
                    2 => *c.pick(&[0.1, -0.0, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::INFINITY, <$t>::NEG_INFINITY, -1e-5]),
                    _ => {
                        let x = <$t>::from_bits(c.range(0, u64::MAX - 1) as $u);
                        if x.is_nan() { 1.5 } else { x }
                    }
                }
            }
            fn raw(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        }
    )* };
}
floats!(f32, u32; f64, u64);

fn bytes<T: Elem>(v: &[T]) -> Vec<u8> {
    v.iter().flat_map(|x| x.raw()).collect()
}

pub fn put<T: Elem>(dir: &Path, name: &str, v: &[T]) {
    std::fs::write(dir.join(name), bytes(v)).unwrap();
}

fn file(dir: &Path, name: &str) -> Result<Vec<u8>, String> {
    std::fs::read(dir.join(name)).map_err(|e| format!("output {}: {}", name, e))
}

/// The tool has written exactly these values.
fn written<T: Elem>(dir: &Path, name: &str, want: &[T]) -> Result<(), String> {
    let got = file(dir, name)?;
    if got != bytes(want) {
        let shown: Vec<String> = want.iter().take(60).map(|x| x.to_string()).collect();
        return Err(format!("{} has {} bytes {:?} instead of {} values {:?}", name, got.len(), &got[..got.len().min(200)], want.len(), shown));
    }
    Ok(())
}

fn load(dir: &Path, name: &str) -> Result<Vec<u32>, String> {
    let b = file(dir, name)?;
    ensure!(b.len() % 4 == 0, "{} has {} bytes", name, b.len());
    Ok(b.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect())
}

fn s(p: &Path) -> String {
    p.to_str().unwrap().to_owned()
}

fn typed(c: &mut Case, f: &mut dyn FnMut(&mut Case, usize, &str) -> Result<(), String>) -> Result<(), String> {
    let i = c.draw(9) as usize;
    let short = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"][i];
    let long = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"][i];
    let name = if c.coin() { long } else { short };
    f(c, i, name)
}

macro_rules! by_type {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i {
            0 => $f::<i8>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<i16>($($a),*),
            3 => $f::<u16>($($a),*),
            4 => $f::<i32>($($a),*),
            5 => $f::<u32>($($a),*),
            6 => $f::<i64>($($a),*),
            7 => $f::<u64>($($a),*),
            8 => $f::<f32>($($a),*),
            _ => $f::<f64>($($a),*),
        }
    };
}

fn vectors(c: &mut Case) -> Result<(), String> {
    typed(c, &mut |c, i, name| by_type!(i, vector(c, name)))
}

fn vector<T: Elem>(c: &mut Case, name: &str) -> Result<(), String>
where
    T::Err: Debug,
{
    let dir = Scratch::new();
    let k = c.size(0, 30);
    let mut v: Vec<T> = (0..k).map(|_| T::gen(c)).collect();
    let out = dir.path("v");
    if v.windows(2).any(|w| w[0] != w[1]) {
        c.nontrivial();
    }
    c.note(|| format!("{} {:?}", name, v));
    let mut lines: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    let broken = k > 0 && c.chance(1, 6);
    if broken {
        let i = c.size(0, k - 1);
        lines[i] = c.pick(&["", "x", "1 2", "1,5", "--1", "340282366920938463463374607431768211456x"]).to_string();
    }
    let mut text = lines.join("\n");
    if k > 0 && (broken || c.coin()) {
        text.push('\n');
    }
    if broken {
        let r = run("encode_vector", &[name.to_owned(), s(&out)], &text);
        ensure!(!r.status.success(), "encode_vector accepts {:?} as {}", text, name);
        ensure!(!out.exists(), "encode_vector writes a file for {:?} as {}", text, name);
        return Ok(());
    }
    works("encode_vector", &[name.to_owned(), s(&out)], &text)?;
    written(&dir.0, "v", &v)?;
    let text = works("decode_vector", &[name.to_owned(), s(&out)], "")?;
    let got: Vec<T> = text.lines().map(|l| l.parse::<T>().map_err(|e| format!("decode_vector: {} {:?}", l, e))).collect::<Result<_, _>>()?;
    ensure_eq!(bytes(&got), bytes(&v), "decode_vector gives {:?}", got);
    // change some elements
    let old = v.clone();
    for _ in 0..c.size(0, 3) {
        if k > 0 {
            let i = c.size(0, k - 1);
            v[i] = T::gen(c);
        }
    }
    if c.chance(1, 5) {
        v.push(T::gen(c));
    }
    put(&dir.0, "w", &v);
    let text = works("compare_vector", &[name.to_owned(), s(&out), s(&dir.path("w"))], "")?;
    let same = if old.len() == v.len() { old.iter().zip(&v).filter(|(a, b)| a == b).count() } else { 0 };
    ensure_eq!(text.trim(), same.to_string(), "number of equal elements of {:?} and {:?}", old, v);
    Ok(())
}

fn permute<T: Elem>(c: &mut Case, name: &str, ranks: &[u32], dir: &Scratch) -> Result<(), String> {
    let data: Vec<T> = ranks.iter().map(|_| T::gen(c)).collect();
    put(&dir.0, "data", &data);
    works("permute_node_data", &[s(&dir.path("data")), name.to_owned(), s(&dir.path("ranks")), s(&dir.path("permuted"))], "")?;
    let mut want = data.clone();
    for (node, &rank) in ranks.iter().enumerate() {
        want[rank as usize] = data[node];
    }
    written(&dir.0, "permuted", &want)
}

fn orders(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let n = c.size(1, 20);
    let ranks = c.permutation(n);
    let mut order = vec![0u32; n];
    for (node, &r) in ranks.iter().enumerate() {
        order[r as usize] = node as u32;
    }
    if order != ranks {
        c.nontrivial();
    }
    c.note(|| format!("ranks {:?}", ranks));
    put(&dir.0, "ranks", &ranks);
    works("invert_order", &[s(&dir.path("ranks")), s(&dir.path("order"))], "")?;
    written(&dir.0, "order", &order)?;
    typed(c, &mut |c, i, name| by_type!(i, permute(c, name, &ranks, &dir)))?;
    let (a, b) = (c.u32(0, 100_000), c.u32(0, 100_000));
    works("write_unit_files", &[s(&dir.0), a.to_string(), b.to_string()], "")?;
    written(&dir.0, "tt_units_per_s", &[a])?;
    written(&dir.0, "dist_units_per_m", &[b])
}

pub fn put_graph(dir: &Path, g: &G, weight: &str) {
    put(dir, "first_out", &g.first_out());
    put(dir, "head", &g.head());
    put(dir, weight, &g.weights());
}

fn coordinates(c: &mut Case, n: usize) -> (Vec<f32>, Vec<f32>) {
    let grid = *c.pick(&[1.0f32, 8.0, 1000.0]);
    let at = |c: &mut Case, base: f32| base + c.u32(0, 8) as f32 / grid;
    let (a, b) = (c.u32(0, 160) as f32 - 80.0, c.u32(0, 340) as f32 - 170.0);
    (0..n).map(|_| (at(c, a), at(c, b))).unzip()
}

/// Arcs with weights per node, sorted.
fn bundles(first_out: &[u32], head: &[u32], weight: &[u32], what: &str) -> Result<Vec<Vec<(u32, u32)>>, String> {
    let n = first_out.len();
    ensure!(n > 0 && first_out[0] == 0 && first_out[n - 1] as usize == head.len() && head.len() == weight.len() && first_out.windows(2).all(|w| w[0] <= w[1]),
        "{}: first_out {:?} with {} heads and {} weights", what, first_out, head.len(), weight.len());
    Ok(first_out
        .windows(2)
        .map(|w| {
            let mut v: Vec<_> = (w[0] as usize..w[1] as usize).map(|e| (head[e], weight[e])).collect();
            v.sort_unstable();
            v
        })
        .collect())
}

fn graphs(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let g = graph(c, &Cfg { max_n: 16, inf: true, ..CFG });
    c.note(|| g.desc());
    put_graph(&dir.0, &g, "travel_time");
    works("generate_tail", &[s(&dir.0)], "")?;
    written(&dir.0, "tail", &g.edges.iter().map(|e| e.0).collect::<Vec<_>>())?;

    // part inside of a box
    let (lat, lng) = coordinates(c, g.n);
    put(&dir.0, "latitude", &lat);
    put(&dir.0, "longitude", &lng);
    let bound = |c: &mut Case, x: &[f32]| -> (f32, f32) {
        let a = *c.pick(x) - if c.coin() { 0.0 } else { 1.5 };
        let b = *c.pick(x) + if c.coin() { 0.0 } else { 1.5 };
        if c.chance(1, 8) {
            (a, b)
        } else {
            (a.min(b), a.max(b))
        }
    };
    let (a, b) = (bound(c, &lat), bound(c, &lng));
    std::fs::create_dir(dir.path("part")).unwrap();
    c.note(|| format!("positions {:?} {:?} box {:?} {:?}", lat, lng, a, b));
    works("subgraph", &[s(&dir.0), a.0.to_string(), b.0.to_string(), a.1.to_string(), b.1.to_string(), s(&dir.path("part"))], "")?;
    let nodes: Vec<u32> = (0..g.n as u32).filter(|&v| (a.0..=a.1).contains(&lat[v as usize]) && (b.0..=b.1).contains(&lng[v as usize])).collect();
    let id = |v: u32| nodes.binary_search(&v).ok().map(|i| i as u32);
    let part = dir.path("part");
    written(&part, "latitude", &nodes.iter().map(|&v| lat[v as usize]).collect::<Vec<_>>())?;
    written(&part, "longitude", &nodes.iter().map(|&v| lng[v as usize]).collect::<Vec<_>>())?;
    let got = bundles(&load(&part, "first_out")?, &load(&part, "head")?, &load(&part, "travel_time")?, "subgraph")?;
    let mut want = vec![Vec::new(); nodes.len()];
    let mut inside = 0;
    for e in &g.edges {
        if let (Some(a), Some(b)) = (id(e.0), id(e.1)) {
            want[a as usize].push((b, e.2));
            inside += 1;
        }
    }
    want.iter_mut().for_each(|v| v.sort_unstable());
    ensure_eq!(got, want, "arcs inside of the box");
    if inside > 0 && inside < g.m() {
        c.nontrivial();
    }

    // upward and downward part for an order
    put(&dir.0, "weight", &g.weights());
    let order = c.permutation(g.n);
    put(&dir.0, "order", &order);
    works("permutate_and_split", &[s(&dir.0)], "")?;
    let mut rank = vec![0u32; g.n];
    for (r, &v) in order.iter().enumerate() {
        rank[v as usize] = r as u32;
    }
    let mut want = [vec![Vec::new(); g.n], vec![Vec::new(); g.n]];
    for e in &g.edges {
        let (a, b) = (rank[e.0 as usize], rank[e.1 as usize]);
        if a < b {
            want[0][a as usize].push((b, e.2));
        } else if b < a {
            want[1][b as usize].push((a, e.2));
        }
    }
    for (i, name) in ["forward", "backward"].iter().enumerate() {
        let f = |x: &str| load(&dir.0, &format!("{}_{}", name, x));
        let mut got = bundles(&f("first_out")?, &f("head")?, &f("weight")?, name)?;
        for v in want[i].iter_mut() {
            v.sort_unstable();
        }
        // it is not specified what happens to loops
        for (v, b) in got.iter_mut().enumerate() {
            b.retain(|x| x.0 != v as u32);
        }
        ensure_eq!(got, want[i], "{} arcs for the order {:?}", name, order);
    }
    Ok(())
}

pub fn put_td(dir: &Path, g: &TdG) {
    put(dir, "first_out", &g.first_out());
    put(dir, "head", &g.head());
    let (f, d, t) = g.ipps();
    put(dir, "first_ipp_of_arc", &f);
    put(dir, "ipp_departure_time", &d);
    put(dir, "ipp_travel_time", &t);
}

fn functions(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let mut g = td::td_graph(c, &Cfg { max_n: 8, ..CFG }, 6, 4_000_000);
    if g.edges.iter().any(|e| e.2.len() > 1) {
        c.nontrivial();
    }
    let lower = g.lower().weights();
    // with explicit points at the beginning and the end of the day
    let plain = g.clone();
    for (i, e) in g.edges.iter_mut().enumerate() {
        let first = e.2[0].1;
        if e.2.len() > 1 && c.coin() {
            e.2.push((td::P, first));
        } else if c.chance(1, 4) && plain.edges[i].2.len() == 1 && e.2[0].0 == 0 {
            e.2.push((td::P, first));
        }
    }
    c.note(|| g.desc());
    put_td(&dir.0, &g);
    works("td_lower_bound", &[s(&dir.0)], "")?;
    written(&dir.0, "lower_bound", &lower)?;
    works("remove_period_points", &[s(&dir.0)], "")?;
    // the functions are the same afterwards and have no points at the end of the day
    let (first, dep, tt) = (load(&dir.0, "first_ipp_of_arc")?, load(&dir.0, "ipp_departure_time")?, load(&dir.0, "ipp_travel_time")?);
    ensure!(first.len() == g.edges.len() + 1 && first[0] == 0 && first[g.edges.len()] as usize == dep.len() && dep.len() == tt.len(), "sizes {} {} {}", first.len(), dep.len(), tt.len());
    for (i, e) in g.edges.iter().enumerate() {
        ensure!(first[i] < first[i + 1], "arc {} has no points", i);
        let f: td::Raw = (first[i] as usize..first[i + 1] as usize).map(|k| (dep[k], tt[k])).collect();
        ensure!(f.iter().all(|p| p.0 < td::P), "arc {} has still a point at the end of the day: {:?}", i, f);
        for p in e.2.iter().chain(&f) {
            for t in [p.0.saturating_sub(1), p.0, p.0 + 1] {
                let t = t as u64 % td::P as u64;
                let (x, y) = (td::exact(&f, t), td::exact(&e.2, t));
                ensure!(x.0 * y.1 == x.1 * y.0, "arc {} has {:?}, travel time at {}: {:?} instead of {:?}", i, f, t, x, y);
            }
        }
    }
    // the rest is not touched
    written(&dir.0, "first_out", &g.first_out())?;
    written(&dir.0, "head", &g.head())
}

fn queries(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let g = graph(c, &Cfg { max_n: 30, ..CFG });
    put_graph(&dir.0, &g, "travel_time");
    // one hour is 3600 units times this
    let unit = if c.chance(3, 4) { 0 } else { 1 };
    let g2 = if unit == 1 { g.with_weights(&g.weights().iter().map(|w| (w % 20_000).saturating_mul(3)).collect::<Vec<_>>()) } else { g.clone() };
    put(&dir.0, "travel_time", &g2.weights());
    put(&dir.0, "tt_units_per_s", &[unit as u32]);
    for d in ["queries", "queries/uniform", "queries/rank", "queries/1h", "queries/4h"] {
        std::fs::create_dir(dir.path(d)).unwrap();
    }
    let k = c.size(1, 6);
    c.note(|| format!("{} {} queries, {} units per s", g2.desc(), k, unit));
    works("generate_queries", &[s(&dir.0), k.to_string()], "")?;
    let q = |x: &str| load(&dir.0, &format!("queries/{}", x));
    let ok = |v: &[u32]| v.iter().all(|&x| (x as usize) < g.n);
    for x in ["source", "target"] {
        let v = q(&format!("uniform/{}", x))?;
        ensure!(v.len() == k && ok(&v), "uniform {} {:?}", x, v);
    }
    let d = g2.all_dists();
    let (a, b, r) = (q("rank/source")?, q("rank/target")?, q("rank/rank")?);
    ensure!(a.len() == b.len() && b.len() == r.len() && ok(&a) && ok(&b), "rank queries {:?} {:?} {:?}", a, b, r);
    let mut count: BTreeMap<(u32, u32), usize> = BTreeMap::new();
    for i in 0..a.len() {
        let from = &d[a[i] as usize];
        let dist = from[b[i] as usize];
        ensure!(dist != INF && r[i] < 30, "rank query {} -> {} rank {}", a[i], b[i], r[i]);
        let (closer, upto) = (from.iter().filter(|&&x| x < dist).count(), from.iter().filter(|&&x| x <= dist).count());
        let pos = 1usize << r[i];
        ensure!(closer < pos && pos <= upto, "{} is settled as number {} to {} from {}, not as number {}", b[i], closer + 1, upto, a[i], pos);
        *count.entry((a[i], r[i])).or_insert(0) += 1;
    }
    let mut sources: BTreeMap<u32, usize> = BTreeMap::new();
    for (&(v, rank), &num) in &count {
        if rank == 0 {
            sources.insert(v, num);
        }
        ensure_eq!(sources.get(&v), Some(&num), "number of queries from {} of rank {}", v, rank);
    }
    ensure_eq!(sources.values().sum::<usize>(), k, "number of sources of rank queries");
    for (&v, _) in &sources {
        let reach = d[v as usize].iter().filter(|&&x| x != INF).count();
        for rank in 0..30 {
            ensure_eq!(count.contains_key(&(v, rank)), 1 << rank <= reach, "query of rank {} from {}, which reaches {} nodes", rank, v, reach);
        }
    }
    for (x, h) in [("1h", 1u64), ("4h", 4)] {
        let (a, b) = (q(&format!("{}/source", x))?, q(&format!("{}/target", x))?);
        let limit = 3600 * h * unit;
        ensure!(a.len() == b.len() && ok(&a) && ok(&b), "{} queries {:?} {:?}", x, a, b);
        let mut left = sources.clone();
        left.retain(|&v, _| d[v as usize].iter().any(|&y| y != INF && y > limit));
        for i in 0..a.len() {
            let from = &d[a[i] as usize];
            let best = from.iter().filter(|&&y| y != INF && y > limit).min();
            ensure_eq!(Some(&from[b[i] as usize]), best, "distance of the {} query {} -> {}", x, a[i], b[i]);
            match left.get_mut(&a[i]) {
                Some(k) if *k > 0 => *k -= 1,
                _ => return Err(format!("unexpected {} query from {}", x, a[i])),
            }
            c.nontrivial();
        }
        ensure!(left.values().all(|&k| k == 0), "missing {} queries: {:?}", x, left);
    }
    Ok(())
}

fn traffic(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let m = c.size(1, 1500);
    let tt_unit = *c.pick(&[1000u32, 1, 100]);
    let dist_unit = *c.pick(&[1u32, 10]);
    let fast = c.chance(3, 4);
    let mut tt = Vec::new();
    let mut dist = Vec::new();
    let seed = c.range(0, u32::MAX as u64);
    let mut rng = Rng::new(seed);
    for _ in 0..m {
        let len = rng.next() % 5000;
        let kmh = if fast { 29 + rng.next() % 100 } else { 1 + rng.next() % 60 };
        dist.push((len * dist_unit as u64) as u32);
        tt.push(if rng.next() % 10 == 0 { 0 } else { (len * 36 * tt_unit as u64 / kmh / 10) as u32 });
    }
    put(&dir.0, "travel_time", &tt);
    put(&dir.0, "geo_distance", &dist);
    put(&dir.0, "tt_units_per_s", &[tt_unit]);
    put(&dir.0, "dist_units_per_m", &[dist_unit]);
    c.note(|| format!("{} arcs, seed {}, units {} {}", m, seed, tt_unit, dist_unit));
    works("generate_fake_traffic", &[s(&dir.0), "live".to_owned()], "")?;
    let live = load(&dir.0, "live")?;
    ensure_eq!(live.len(), m, "number of travel times");
    for e in 0..m {
        if live[e] != tt[e] {
            c.nontrivial();
            // jammed: 5 km/h instead of more than 30
            let kmh = dist[e] as f64 / dist_unit as f64 / (tt[e] as f64 / tt_unit as f64) * 3.6;
            ensure!(tt[e] > 0 && kmh > 29.999, "traffic on arc {} with {} km/h", e, kmh);
            let want = dist[e] as f64 / dist_unit as f64 / 5.0 * 3.6 * tt_unit as f64;
            ensure!((live[e] as f64 - want).abs() <= 1.0001, "travel time of arc {}: {} instead of {}", e, live[e], want);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- conversion

fn decimal(x: i64) -> String {
    let t = format!("{}.{:05}", x.abs() / 100_000, x.abs() % 100_000);
    if x < 0 {
        format!("-{}", t)
    } else {
        t
    }
}

fn here(c: &mut Case) -> Result<(), String> {
    let map = match c23::map(c) {
        Some(m) => m,
        None => return Ok(()),
    };
    let (lat, lon) = (map.lat, map.lon);
    let data = read_graph(&CSVSource::new(&map.dir.0), (lat.0, lon.0), (lat.1, lon.1));
    let whole = lat == (-36_000_000, 36_000_000) && lon == (-36_000_000, 36_000_000);
    let out = map.dir.path("out");
    std::fs::create_dir(&out).unwrap();
    let mut args = vec![s(&map.dir.0), s(&out)];
    if !whole || c.coin() {
        args.extend([lat.0, lon.0, lat.1, lon.1].iter().map(|&x| decimal(x)));
        c.nontrivial();
    }
    c.note(|| format!("import_here {:?}", args));
    works("import_here", &args, "")?;
    let graph = &data.graph;
    written(&out, "first_out", graph.first_out())?;
    written(&out, "head", graph.head())?;
    written(&out, "travel_time", graph.weight())?;
    written(&out, "functional_road_classes", &data.functional_road_classes)?;
    written(&out, "latitude", &data.lat)?;
    written(&out, "longitude", &data.lng)?;
    written(&out, "geo_distance", &data.link_lengths.iter().map(|&d| d as u32).collect::<Vec<_>>())?;
    written(&out, "tt_units_per_s", &[1000i32])?;
    written(&out, "dist_units_per_m", &[1i32])?;
    // the mapping is loaded as the server does
    let m = graph.num_arcs();
    let mapping: BitVec = rust_road_router::io::Load::load_from(&out.join("link_id_mapping")).map_err(|e| e.to_string())?;
    let ranks = rust_road_router::io::Load::load_from(&out.join("here_rank_to_link_id")).map_err(|e| e.to_string())?;
    let loaded = LinkIdMapper::new(InvertableRankSelectMap::new(RankSelectMap::new(mapping)), ranks, m);
    let direct = LinkIdMapper::new(InvertableRankSelectMap::new(data.link_id_mapping), data.here_rank_to_link_id, m);
    for e in 0..m as u32 {
        let (id, dir) = direct.local_to_here_link_id(e);
        ensure_eq!(loaded.here_to_local_link_id(id, dir), Some(e), "arc for link {} {:?}", id, dir);
        ensure_eq!(loaded.local_to_here_link_id(e), (id, dir), "link of arc {}", e);
    }
    if whole {
        let text = works("merge_here_link_data", &[s(&map.dir.0)], "")?;
        let mut want = String::from("tail,head,mm_linkLength_m,linkId,direction\n");
        let mut e = 0;
        for v in 0..graph.num_nodes() {
            for _ in graph.first_out()[v]..graph.first_out()[v + 1] {
                let (id, dir) = direct.local_to_here_link_id(e);
                let d = if dir == LinkDirection::FromRef { 'F' } else { 'T' };
                writeln!(want, "{},{},{},{},{}", v, graph.head()[e as usize], data.link_lengths[e as usize], id, d).unwrap();
                e += 1;
            }
        }
        ensure_eq!(text, want, "merge_here_link_data");
    }
    Ok(())
}

/// A number of milliseconds in seconds, without trailing zeros.
fn seconds(c: &mut Case, ms: u32) -> String {
    let full = format!("{}.{:03}", ms / 1000, ms % 1000);
    if c.chance(1, 4) {
        full
    } else {
        full.trim_end_matches('0').trim_end_matches('.').to_owned()
    }
}

fn tpgr(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let g = td::td_graph(c, &Cfg { max_n: 8, ..CFG }, 6, 4_000_000);
    if g.edges.iter().any(|e| e.2.len() > 1) {
        c.nontrivial();
    }
    c.note(|| g.desc());
    let (first_ipp, dep, tt) = g.ipps();
    let header = format!("{} {} {} 86400", g.n, g.edges.len(), dep.len());
    let mut text = header.clone() + "\n";
    for e in &g.edges {
        write!(text, "{} {} {}", e.0, e.1, e.2.len()).unwrap();
        for p in &e.2 {
            let (a, b) = (seconds(c, p.0), seconds(c, p.1));
            write!(text, " {} {}", a, b).unwrap();
        }
        text.push('\n');
    }
    std::fs::write(dir.path("in.tpgr"), &text).unwrap();
    std::fs::create_dir(dir.path("out")).unwrap();
    c.note(|| text.clone());
    let out = dir.path("out");
    works("import_tpgr", &[dir.path("in.tpgr"), out.clone()], "")?;
    written(&out, "first_out", &g.first_out())?;
    written(&out, "head", &g.head())?;
    written(&out, "first_ipp_of_arc", &first_ipp)?;
    written(&out, "ipp_departure_time", &dep)?;
    written(&out, "ipp_travel_time", &tt)?;

    works("tpgr_upscaling", &[dir.path("in.tpgr"), dir.path("up.tpgr")], "")?;
    let up = String::from_utf8(file(&dir.0, "up.tpgr")?).unwrap();
    same_tpgr(&up, &g, &(header + "0"), 0.01)?;

    // and back: the period is 864000
    let period = *c.pick(&[td::P, 864_000, 86_400]);
    put(&out, "period", &[period]);
    works("td_ben_bin_to_veit_tpgr", &[out.clone(), dir.path("back.tpgr")], "")?;
    let back = String::from_utf8(file(&dir.0, "back.tpgr")?).unwrap();
    same_tpgr(&back, &g, &format!("{} {} {} 864000", g.n, g.edges.len(), dep.len()), 864_000.0 / period as f64)?;

    works("td_ben_to_tbgr", &[out.clone(), dir.path("g.tbgr")], "")?;
    let mut want: Vec<u32> = vec![2, g.n as u32, g.edges.len() as u32, dep.len() as u32, period];
    want.extend(&g.first_out()[..g.n]);
    for (i, h) in g.head().iter().enumerate() {
        want.extend([*h, first_ipp[i]]);
    }
    for i in 0..dep.len() {
        want.extend([dep[i], tt[i]]);
    }
    written(&dir.0, "g.tbgr", &want)
}

fn same_tpgr(text: &str, g: &TdG, header: &str, factor: f64) -> Result<(), String> {
    let mut lines = text.lines();
    ensure_eq!(lines.next(), Some(header), "header");
    for e in &g.edges {
        let words: Vec<&str> = lines.next().ok_or("lines missing")?.split(' ').collect();
        ensure_eq!(&words[..3], &[&e.0.to_string()[..], &e.1.to_string(), &e.2.len().to_string()], "arc");
        let nums: Vec<f64> = words[3..].iter().map(|w| w.parse::<f64>().map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        let want: Vec<f64> = e.2.iter().flat_map(|p| [p.0 as f64 * factor, p.1 as f64 * factor]).collect();
        ensure!(nums.len() == want.len() && nums.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs())), "points {:?} instead of {:?}", nums, want);
    }
    ensure_eq!(lines.next(), None, "additional lines");
    Ok(())
}

fn exports(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let g = graph(c, &Cfg { max_n: 14, inf: true, ..CFG });
    let (lat, lng) = coordinates(c, g.n);
    put_graph(&dir.0, &g, "travel_time");
    put(&dir.0, "latitude", &lat);
    put(&dir.0, "longitude", &lng);
    c.note(|| format!("{} at {:?} {:?}", g.desc(), lat, lng));
    if g.m() > 1 {
        c.nontrivial();
    }
    let base = *c.pick(&["graph", "graph.x", "a.gr"]);
    let stem = base.split('.').next().unwrap();
    works("export_dimacs", &[dir.0.clone(), dir.path(base)], "")?;
    let text = String::from_utf8(file(&dir.0, &format!("{}.gr", stem))?).unwrap();
    let mut want = format!("p sp {} {}\n", g.n, g.m());
    for e in &g.edges {
        writeln!(want, "a {} {} {}", e.0 + 1, e.1 + 1, e.2).unwrap();
    }
    ensure_eq!(text, want, "exported graph");
    let text = String::from_utf8(file(&dir.0, &format!("{}.co", stem))?).unwrap();
    let mut lines = text.lines();
    ensure_eq!(lines.next().unwrap_or("").to_owned(), format!("p aux sp co {}", g.n), "header of the coordinates");
    for v in 0..g.n {
        let w: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
        ensure!(w.len() == 4 && w[0] == "v" && w[1] == (v + 1).to_string(), "line {:?} for node {}", w, v);
        for (i, x) in [lat[v], lng[v]].iter().enumerate() {
            let got: f64 = w[2 + i].parse().map_err(|_| format!("coordinate {}", w[2 + i]))?;
            ensure!((got - *x as f64 * 1e6).abs() <= 17.0, "coordinate {} of node {}: {} instead of {}", i, v, got, x);
        }
    }
    ensure_eq!(lines.next(), None, "additional lines");

    let unit = *c.pick(&[1u32, 10, 1000]);
    put(&dir.0, "dist_units_per_m", &[unit]);
    works("generate_geo_distances", &[&dir.0], "")?;
    let dist = load(&dir.0, "geo_distance")?;
    ensure_eq!(dist.len(), g.m(), "number of distances");
    for (i, e) in g.edges.iter().enumerate() {
        let pos = |v: u32| (lat[v as usize] as f64, lng[v as usize] as f64, 0.0);
        let want = c23::distance(pos(e.0), pos(e.1)) * unit as f64;
        ensure!((dist[i] as f64 - want).abs() <= 1.01 + 1e-9 * want || want > u32::MAX as f64 - 2.0, "distance of arc {}: {} instead of {}", i, dist[i], want);
    }
    Ok(())
}

fn demands(c: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let k = c.size(0, 12);
    let v = |c: &mut Case| -> Vec<u32> { (0..k).map(|_| if c.coin() { c.u32(0, 50) } else { c.u32(0, INFINITY) }).collect() };
    let (from, at, to, rank) = (v(c), v(c), v(c), v(c));
    let optimal: Vec<u32> = v(c).into_iter().map(|x| if c.chance(1, 4) { INFINITY } else { x }).collect();
    if optimal.iter().any(|&x| x == INFINITY) && optimal.iter().any(|&x| x != INFINITY) {
        c.nontrivial();
    }
    put(&dir.0, "source_node", &from);
    put(&dir.0, "source_time", &at);
    put(&dir.0, "target_node", &to);
    put(&dir.0, "dij_rank", &rank);
    let sub = dir.path(*c.pick(&["", "a", "a/b"]));
    std::fs::create_dir_all(&sub).unwrap();
    put(&sub, "optimal_target_time", &optimal);
    c.note(|| format!("from {:?} at {:?} to {:?} rank {:?} arrivals {:?}", from, at, to, rank, optimal));
    let text = works("td_ben_queries_to_stdout", &[&sub], "")?;
    let want: String = (0..k).map(|i| format!("{} {} {}\n", from[i], at[i], to[i])).collect();
    ensure_eq!(text, want, "queries");
    works("td_ben_queries_to_veit_demands", &[sub, dir.path("demands")], "")?;
    let mut want = b"demands\r\n".to_vec();
    let used: Vec<usize> = (0..k).filter(|&i| optimal[i] != INFINITY).collect();
    want.extend((used.len() as u32).to_le_bytes());
    for i in used {
        want.extend(from[i].to_le_bytes());
        want.extend(to[i].to_le_bytes());
        want.extend((at[i] as f64 / 100.0).to_le_bytes());
        want.extend((optimal[i] as f64 / 100.0).to_le_bytes());
        want.extend(rank[i].to_le_bytes());
    }
    want.extend([0x34, 0x25, 0x16, 0x07]);
    ensure_eq!(file(&dir.0, "demands")?, want, "demands");
    Ok(())
}

/// Graph of OSM nodes with lengths and travel times, without loops of arcs with the same end points if not wanted.
fn osm(c: &mut Case, parallel: bool) -> (G, Vec<u64>, Vec<u32>, Scratch) {
    let dir = Scratch::new();
    let mut g = graph(c, &Cfg { max_n: 10, parallel, ..CFG });
    if !parallel {
        let mut seen = std::collections::BTreeSet::new();
        g.edges.retain(|e| seen.insert((e.0, e.1)));
    }
    let mut ids = std::collections::BTreeSet::new();
    let step = *c.pick(&[1u64, 3, 700]);
    let mut id = c.range(0, 50);
    for _ in 0..g.n {
        ids.insert(id);
        id += 1 + c.range(0, step - 1);
    }
    let ids: Vec<u64> = ids.into_iter().collect();
    let dist: Vec<u32> = (0..g.m()).map(|_| if c.chance(1, 8) { 0 } else { c.u32(1, 20_000) }).collect();
    let tt: Vec<u32> = dist.iter().map(|&d| if d == 0 { c.u32(0, 1000) } else { (d as u64 * 3600 / c.range(5, 130)) as u32 }).collect();
    let g = g.with_weights(&tt);
    put_graph(&dir.0, &g, "travel_time");
    put(&dir.0, "geo_distance", &dist);
    put(&dir.0, "osm_node_ids", &ids);
    (g, ids, dist, dir)
}

/// End points of an arc (or some other pair of ids).
fn segment(c: &mut Case, g: &G, ids: &[u64]) -> (u64, u64) {
    if g.m() > 0 && c.chance(3, 4) {
        let e = g.edges[c.size(0, g.m() - 1)];
        (ids[e.0 as usize], ids[e.1 as usize])
    } else {
        let max = ids[ids.len() - 1] + 5;
        let x = if c.chance(1, 10) { 1 << 40 } else { c.range(0, max) };
        (x, *c.pick(ids))
    }
}

fn live(c: &mut Case) -> Result<(), String> {
    let (g, ids, dist, dir) = osm(c, true);
    std::fs::create_dir(dir.path("speeds")).unwrap();
    let mut measured: Vec<(u32, u32)> = Vec::new(); // arc, travel time
    let (mut known, mut total) = (0, 0);
    let local: BTreeMap<u64, u32> = ids.iter().enumerate().map(|(i, &x)| (x, i as u32)).collect();
    let arcs = |a: u32, b: u32| -> Vec<u32> { (0..g.m() as u32).filter(|&e| (g.edges[e as usize].0, g.edges[e as usize].1) == (a, b)).collect() };
    let mut alternatives = Vec::new();
    for f in 0..c.size(0, 3) {
        let mut text = String::new();
        for _ in 0..c.size(0, 6) {
            let (a, b) = segment(c, &g, &ids);
            let speed = c.u32(1, 150);
            writeln!(text, "{},{},{}{}", a, b, speed, if c.chance(1, 5) { ",x" } else { "" }).unwrap();
            total += 1;
            // all lines of a file need the same number of columns
            if let (Some(&a), Some(&b)) = (local.get(&a), local.get(&b)) {
                known += 1;
                let e = arcs(a, b);
                if !e.is_empty() {
                    measured.push((e[0], (dist[e[0] as usize] as u64 * 3600 / speed as u64) as u32));
                    alternatives.push((e, speed));
                    c.nontrivial();
                }
            }
        }
        let width = text.lines().map(|l| l.split(',').count()).max().unwrap_or(0);
        let text: String = text.lines().map(|l| format!("{}{}\n", l, if l.split(',').count() < width { ",y" } else { "" })).collect();
        std::fs::write(dir.path(&format!("speeds/{}.csv", f)), &text).unwrap();
        c.note(|| format!("file {}: {:?}", f, text));
    }
    c.note(|| format!("{} ids {:?} lengths {:?}", g.desc(), ids, dist));
    let speeds = s(&dir.path("speeds"));
    // the files are read in the order of their names
    works("import_mapbox_live", &[s(&dir.0), speeds.clone()], "")?;
    let got = load(&dir.0, "live_travel_time")?;
    // which one of several parallel arcs is meant is not specified
    let mut options: Vec<Vec<u32>> = g.weights().iter().map(|&w| vec![w]).collect();
    ensure_eq!(got.len(), g.m(), "number of live travel times");
    for (arcs, speed) in &alternatives {
        for &e in arcs {
            let tt = (dist[e as usize] as u64 * 3600 / *speed as u64) as u32;
            if arcs.len() == 1 {
                options[e as usize].clear();
            }
            options[e as usize].push(tt);
        }
    }
    for e in 0..g.m() {
        ensure!(options[e].contains(&got[e]), "live travel time of arc {}: {} instead of {:?}", e, got[e], options[e]);
    }
    works("mapbox_to_live_array", &[s(&dir.0), speeds.clone(), "mine".to_owned()], "")?;
    let got: Vec<Vec<u32>> = load(&dir.0, "mine")?.chunks(3).map(|x| x.to_vec()).collect();
    ensure_eq!(got.len(), alternatives.len(), "number of live speeds");
    for (x, (arcs, speed)) in got.iter().zip(&alternatives) {
        ensure!(arcs.contains(&x[0]) && x[1] == (dist[x[0] as usize] as u64 * 3600 / *speed as u64) as u32 && x[2] == 3_600_000, "live speed {:?} instead of {} km/h on {:?}", x, speed, arcs);
    }
    if total > 0 {
        let out = run("osm_id_check", &[s(&dir.0), speeds], "");
        let text = String::from_utf8_lossy(&out.stderr).into_owned();
        let want = format!("known nodes: {}% ({}/{})\nknown arcs: {}% ({}/{})\n", known * 100 / total, known, total, alternatives.len() * 100 / total, alternatives.len(), total);
        ensure!(out.status.success(), "osm_id_check failed: {}", text);
        ensure_eq!(text, want, "osm_id_check");
    }
    Ok(())
}

/// Compare a travel time function with driving along speeds.
fn same_profile(c: &mut Case, got: &[(u32, u32)], speeds: &[(u32, u32)], len: u32, what: &str) -> Result<(), String> {
    ensure!(got.len() >= 2 && got[0].0 == 0 && got[got.len() - 1].0 == td::P && got[0].1 == got[got.len() - 1].1, "{}: the function does not cover the day: {:?}", what, got);
    for w in got.windows(2) {
        ensure!(w[0].0 < w[1].0 && w[0].0 + w[0].1 <= w[1].0 + w[1].1, "{}: points {:?}", what, w);
    }
    let slowest = speeds.iter().map(|s| s.1).min().unwrap() as f64;
    for _ in 0..10 {
        let t = if c.coin() { c.u32(0, td::P - 1) } else { got[c.size(0, got.len() - 2)].0 };
        let i = got.iter().rposition(|p| p.0 <= t).unwrap();
        let (a, b) = (got[i], got[i + 1]);
        let x = a.1 as f64 + (b.1 as f64 - a.1 as f64) * (t - a.0) as f64 / (b.0 - a.0) as f64;
        let (want, changes) = c23::drive(speeds, t as f64, len as f64);
        let tol = (changes as f64 + 2.0) * (3600.0 / slowest + 2.0) * 0.6;
        ensure!((x - want).abs() <= tol, "{}: travel time at {}: {} instead of {}", what, t, x, want);
    }
    Ok(())
}

/// Remove repeated speeds; the first one again at the end of the day.
fn steps(speeds: &[u32]) -> Vec<(u32, u32)> {
    let len = td::P / speeds.len() as u32;
    let mut v: Vec<(u32, u32)> = Vec::new();
    for (i, &x) in speeds.iter().enumerate() {
        if v.last().map_or(true, |l| l.1 != x) {
            v.push((i as u32 * len, x));
        }
    }
    v.push((td::P, v[0].1));
    v
}

fn functions_of(dir: &Path, m: usize) -> Result<Vec<Vec<(u32, u32)>>, String> {
    let (first, dep, tt) = (load(dir, "first_ipp_of_arc")?, load(dir, "ipp_departure_time")?, load(dir, "ipp_travel_time")?);
    ensure!(first.len() == m + 1 && first[0] == 0 && first[m] as usize == dep.len() && dep.len() == tt.len() && first.windows(2).all(|w| w[0] < w[1]), "sizes: {:?} {} {}", first, dep.len(), tt.len());
    Ok(first.windows(2).map(|w| (w[0] as usize..w[1] as usize).map(|i| (dep[i], tt[i])).collect()).collect())
}

fn profiles(c: &mut Case) -> Result<(), String> {
    let (g, ids, dist, dir) = osm(c, false);
    let local: BTreeMap<u64, u32> = ids.iter().enumerate().map(|(i, &x)| (x, i as u32)).collect();
    let mut profile: Vec<Option<Vec<u32>>> = vec![None; g.m()];
    let mut files = vec![s(&dir.0)];
    for f in 0..c.size(0, 2) {
        let mut text = String::new();
        for _ in 0..c.size(0, 2) {
            let (a, b) = segment(c, &g, &ids);
            let (lo, hi) = *c.pick(&[(0u32, 130u32), (20, 40), (50, 50), (1, 8)]);
            let seed = c.range(0, u32::MAX as u64);
            let jump = c.range(1, 20);
            let mut rng = Rng::new(seed);
            let mut v = lo;
            let speeds: Vec<u32> = (0..288)
                .map(|_| {
                    if rng.next() % jump == 0 {
                        v = lo + (rng.next() % (hi - lo + 1) as u64) as u32;
                    }
                    v
                })
                .collect();
            write!(text, "{},{}", a, b).unwrap();
            for v in &speeds {
                write!(text, ",{}", v).unwrap();
            }
            text.push('\n');
            if let (Some(&a), Some(&b)) = (local.get(&a), local.get(&b)) {
                for e in 0..g.m() {
                    if (g.edges[e].0, g.edges[e].1) == (a, b) && dist[e] > 0 {
                        profile[e] = Some(speeds.clone());
                    }
                }
            }
        }
        let name = dir.path(&format!("p{}", f));
        std::fs::write(&name, &text).unwrap();
        files.push(s(&name));
        c.note(|| format!("file {}: {:?}", f, text));
    }
    c.note(|| format!("{} ids {:?} lengths {:?}", g.desc(), ids, dist));
    works("import_td_mapbox", &files, "")?;
    let got = functions_of(&dir.0, g.m())?;
    for e in 0..g.m() {
        match &profile[e] {
            None => ensure_eq!(got[e], vec![(0, g.edges[e].2)], "arc {} without measured speeds", e),
            Some(speeds) => {
                c.nontrivial();
                // no traffic between 23:00 and 5:00, at least 5 km/h, average over 35 minutes, at most the free flow speed
                let max = *speeds.iter().max().unwrap();
                let clean: Vec<u32> = speeds.iter().enumerate().map(|(i, &v)| if i < 60 || i >= 276 { max.max(5) } else { v.max(5) }).collect();
                let free = (dist[e] as u64 * 3600 / g.edges[e].2 as u64) as u32;
                let smooth: Vec<u32> = (0..288).map(|i| ((0..7).map(|k| clean[(i + 285 + k) % 288]).sum::<u32>() / 7).min(free)).collect();
                same_profile(c, &got[e], &steps(&smooth), dist[e], &format!("arc {}", e))?;
            }
        }
    }
    Ok(())
}

fn scrub(c: &mut Case) -> Result<(), String> {
    let columns = c.size(1, 12);
    let start = c.size(0, columns - 1);
    let end = c.size(start + 1, columns);
    let mut lines: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
    for _ in 0..c.size(0, 8) {
        let key = (c.range(0, 12), if c.chance(1, 5) { c.range(0, 1 << 50) } else { c.range(0, 12) });
        let max = *c.pick(&[0u64, 1, 200]);
        lines.insert(key, (0..columns).map(|_| c.range(0, max)).collect());
    }
    let text: Vec<String> = lines.iter().map(|(k, v)| format!("{},{},{}", k.0, k.1, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
    let p = c.permutation(text.len());
    let mut input = p.iter().map(|&i| text[i as usize].clone()).collect::<Vec<_>>().join("\n");
    if !text.is_empty() && c.chance(3, 4) {
        input.push('\n');
    }
    c.note(|| format!("columns {}..{} of {:?}", start, end, input));
    let mut want = String::new();
    for (k, v) in &lines {
        let v = &v[start..end];
        if v.iter().any(|x| x != &v[0]) {
            writeln!(want, "{},{},{}", k.0, k.1, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
            c.nontrivial();
        }
    }
    let out = works("scrub_td_mapbox", &[start.to_string(), end.to_string()], &input)?;
    ensure_eq!(out, want, "segments with changing speeds");
    Ok(())
}

/// gzip file without compression
fn gzip(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let mut chunks = data.chunks(60_000).peekable();
    if data.is_empty() {
        out.extend([1, 0, 0, 255, 255]);
    }
    while let Some(x) = chunks.next() {
        out.push(chunks.peek().is_none() as u8);
        out.extend((x.len() as u16).to_le_bytes());
        out.extend((!(x.len() as u16)).to_le_bytes());
        out.extend(x);
    }
    let mut crc = !0u32;
    for &b in data {
        crc ^= b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { crc >> 1 ^ 0xedb8_8320 } else { crc >> 1 };
        }
    }
    out.extend((!crc).to_le_bytes());
    out.extend((data.len() as u32).to_le_bytes());
    out
}

fn gps(c: &mut Case) -> Result<(), String> {
    let map = match c23::map(c) {
        Some(m) => m,
        None => return Ok(()),
    };
    let data = read_graph(&CSVSource::new(&map.dir.0), (map.lat.0, map.lon.0), (map.lat.1, map.lon.1));
    let out = map.dir.path("out");
    std::fs::create_dir(&out).unwrap();
    works("import_here", &[s(&map.dir.0), s(&out), decimal(map.lat.0), decimal(map.lon.0), decimal(map.lat.1), decimal(map.lon.1)], "")?;
    let m = data.graph.num_arcs();
    // lengths and travel times such that all speeds are positive
    let (tt_unit, dist_unit) = (*c.pick(&[1000u32, 1]), *c.pick(&[1u32, 10]));
    let mut len = Vec::new();
    let mut tt = Vec::new();
    let mut free: Vec<u32> = Vec::new();
    for _ in 0..m {
        let meters = c.u32(30, 8000);
        let t = (meters * 36 * tt_unit / c.u32(4, 130) / 10).max(1);
        len.push(meters * dist_unit + c.u32(0, dist_unit - 1));
        tt.push(t);
        free.push((len[len.len() - 1] as u64 * tt_unit as u64 * 36 / (t as u64 * dist_unit as u64 * 10)) as u32);
    }
    put(&out, "travel_time", &tt);
    put(&out, "geo_distance", &len);
    put(&out, "tt_units_per_s", &[tt_unit]);
    put(&out, "dist_units_per_m", &[dist_unit]);
    let ids = InvertableRankSelectMap::new(data.link_id_mapping);
    let mapper = LinkIdMapper::new(ids, data.here_rank_to_link_id, m);

    let start = 1_500_000_000_000 + c.range(0, 1000) * 1000;
    let end = start + td::P as u64 * c.range(1, 3) - c.range(0, 5000);
    let mut samples: BTreeMap<(usize, u32), Vec<(u32, f64)>> = BTreeMap::new(); // arc, bucket
    let mut args = vec![s(&out), start.to_string(), end.to_string()];
    const BUCKET: u32 = td::P / 96;
    for f in 0..c.size(0, 2) {
        let mut text = String::from("mm_speed_mps,x,mm_linkId,timestampUTC_ms,mm_isFromRef\n");
        for _ in 0..c.size(0, 3) {
            // several samples within one slot
            let e = c.size(0, m - 1);
            let (mut id, dir) = mapper.local_to_here_link_id(e as u32);
            if c.chance(1, 12) {
                id = 1 << 30;
            }
            let slot = c.u32(0, 95);
            let day = c.range(0, 1);
            for _ in 0..c.size(1, 5) {
                let at = start + day * td::P as u64 + (slot * BUCKET + c.u32(0, BUCKET - 1)) as u64;
                let at = if c.chance(1, 20) { start - c.range(1, 100) } else if c.chance(1, 20) { end + c.range(0, 10) } else { at };
                let speed = format!("{}.{}", c.u32(0, 45), c.u32(0, 9));
                let strange = c.chance(1, 20);
                writeln!(text, "{},0,{},{},{}", if strange { "?" } else { &speed }, id, at, dir == LinkDirection::FromRef).unwrap();
                let kmh = if strange { 1000.0 } else { speed.parse::<f64>().unwrap() * 3.6 };
                if id == 1 << 30 || free[e] as f64 * 1.5 < kmh || at < start || at >= end {
                    continue;
                }
                let t = ((at - start) % td::P as u64) as u32;
                samples.entry((e, t / BUCKET)).or_default().push((t, kmh));
            }
        }
        let name = map.dir.path(&format!("gps{}", f));
        std::fs::write(&name, gzip(text.as_bytes())).unwrap();
        args.push(s(&name));
        c.note(|| format!("file {}: {:?}", f, text));
    }
    c.note(|| format!("lengths {:?} travel times {:?} free flow {:?} samples {:?}", len, tt, free, samples));
    // simultaneous samples have no order
    for v in samples.values_mut() {
        v.sort_by_key(|x| x.0);
        if v.windows(2).any(|w| w[0].0 == w[1].0) {
            return Ok(());
        }
    }
    works("gps_to_td_for_here", &args, "")?;
    let got = functions_of(&out, m)?;
    for e in 0..m {
        let mut options = vec![vec![free[e]; 96]];
        for bucket in 0..96u32 {
            if let Some(v) = samples.get(&(e, bucket)).filter(|v| v.len() >= 3) {
                // each sample counts for the time between its neighbors
                let k = v.len();
                let (mut sum, mut weights) = (0.0, 0.0);
                for i in 0..k {
                    let from = if i == 0 { bucket * BUCKET } else { v[i - 1].0 };
                    let to = if i + 1 == k { (bucket + 1) * BUCKET } else { v[i + 1].0 };
                    sum += v[i].1 * (to - from) as f64;
                    weights += (to - from) as f64;
                }
                let avg: f64 = sum / weights;
                let (a, b) = ((avg - 1e-9).round() as u32, (avg + 1e-9).round() as u32);
                let other: Vec<Vec<u32>> = if a == b { Vec::new() } else { options.clone() };
                for o in options.iter_mut() {
                    o[bucket as usize] = free[e].min(a.max(1));
                }
                for mut o in other {
                    o[bucket as usize] = free[e].min(b.max(1));
                    options.push(o);
                }
            }
        }
        let flat = |o: &Vec<u32>| o.iter().all(|&x| x == free[e]);
        let mut errors = Vec::new();
        for o in &options {
            let r = if flat(o) {
                if got[e] == vec![(0, tt[e])] {
                    Ok(())
                } else {
                    Err(format!("arc {} is not constant: {:?}", e, got[e]))
                }
            } else {
                c.nontrivial();
                same_profile(c, &got[e], &steps(o), len[e] / dist_unit, &format!("arc {}", e))
            };
            errors.extend(r.err());
        }
        ensure!(errors.len() < options.len(), "{:?}", errors);
    }
    Ok(())
}
