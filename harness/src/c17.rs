//! Storing data on disk and reading it back.

use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::a_star::Potential;
use rust_road_router::algo::catchup;
use rust_road_router::algo::ch_potentials::{CHPotLoader, CHPotential};
use rust_road_router::algo::contraction_hierarchy::overlay;
use rust_road_router::algo::customizable_contraction_hierarchy::customization::ftd_for_pot::{self, PotData};
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server as CchServer, *};
use rust_road_router::algo::td_astar::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent as ftd;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::{Deconstruct, Load, Reconstruct, ReconstructPrepared, Store};
use rust_road_router::util::in_range_option::InRangeOption;
use std::fmt::Debug;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

pub static PROP: Property = Property {
    id: "C17",
    rule: "something with at least two elements was written and read back (or a file of the wrong size was refused)",
    subs: &[
        Sub { name: "vectors", f: vectors, quick: 80_000, thorough: 6_000_000, big: false },
        Sub { name: "malformed", f: malformed, quick: 80_000, thorough: 6_000_000, big: false },
        Sub { name: "graphs", f: graphs, quick: 40_000, thorough: 2_000_000, big: false },
        Sub { name: "bits", f: bits, quick: 20_000, thorough: 1_000_000, big: false },
        Sub { name: "hierarchies", f: hierarchies, quick: 12_000, thorough: 600_000, big: false },
        Sub { name: "td_graphs", f: td_graphs, quick: 20_000, thorough: 600_000, big: false },
        Sub { name: "td_preprocessing", f: td_preprocessing, quick: 1_500, thorough: 100_000, big: false },
    ],
};

/// Scratch directory of one case, removed with everything in it at the end of the case.
pub struct Scratch(pub PathBuf);

static COUNTER: AtomicUsize = AtomicUsize::new(0);

impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let dir = base.join(format!("rrr-pbt-{}-{}", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&dir).unwrap();
        Scratch(dir)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The property does not say how: both an Err and a panic reject the file.
fn accepted<T>(f: impl FnOnce() -> std::io::Result<T>) -> Option<T> {
    match catches(f) {
        Ok(Ok(v)) => Some(v),
        _ => None,
    }
}

trait Elem: Copy + Default + PartialEq + Debug + 'static {
    fn gen(c: &mut Case) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn from_bytes(b: &[u8]) -> Self;
}

macro_rules! elem {
    ($t:ty, $size:expr, |$c:ident| $gen:expr) => {
        impl Elem for $t {
            fn gen($c: &mut Case) -> Self {
                $gen
            }
            fn bytes(&self) -> Vec<u8> {
                // written out by hand: least significant byte first
                let bits = self.raw();
                (0..$size).map(|i| (bits >> (8 * i)) as u8).collect()
            }
            fn from_bytes(b: &[u8]) -> Self {
                let mut bits = 0u64;
                for (i, &x) in b.iter().enumerate() {
                    bits |= (x as u64) << (8 * i);
                }
                <$t as Raws>::of(bits)
            }
        }
    };
}

trait Raws {
    fn raw(&self) -> u64;
    fn of(bits: u64) -> Self;
}
macro_rules! raws_int {
    ($($t:ty),*) => { $(impl Raws for $t {
        fn raw(&self) -> u64 { *self as u64 }
        fn of(bits: u64) -> Self { bits as $t }
    })* };
}
raws_int!(u8, u16, u32, u64, i32, i64);
impl Raws for f32 {
    fn raw(&self) -> u64 {
        self.to_bits() as u64
    }
    fn of(bits: u64) -> Self {
        f32::from_bits(bits as u32)
    }
}
impl Raws for f64 {
    fn raw(&self) -> u64 {
        self.to_bits()
    }
    fn of(bits: u64) -> Self {
        f64::from_bits(bits)
    }
}

fn int(c: &mut Case) -> u64 {
    match c.draw(3) {
        0 => c.range(0, 300),
        1 => *c.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, u64::MAX, 1 << 63]),
        _ => c.draw(u64::MAX),
    }
}

elem!(u8, 1, |c| int(c) as u8);
elem!(u16, 2, |c| int(c) as u16);
elem!(u32, 4, |c| int(c) as u32);
elem!(u64, 8, |c| int(c));
elem!(i32, 4, |c| int(c) as i32);
elem!(i64, 8, |c| int(c) as i64);
elem!(f32, 4, |c| f32::from_bits(int(c) as u32));
elem!(f64, 8, |c| f64::from_bits(int(c)));

impl<A: Elem, B: Elem> Elem for (A, B) {
    fn gen(c: &mut Case) -> Self {
        (A::gen(c), B::gen(c))
    }
    fn bytes(&self) -> Vec<u8> {
        [self.0.bytes(), self.1.bytes()].concat()
    }
    fn from_bytes(b: &[u8]) -> Self {
        let k = std::mem::size_of::<A>();
        (A::from_bytes(&b[..k]), B::from_bytes(&b[k..]))
    }
}

fn same<T: Elem>(a: &[T], b: &[T]) -> bool {
    // bitwise: NaNs have to survive as well
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bytes() == y.bytes())
}

fn vector_of<T: Elem>(c: &mut Case, name: &str) -> Result<(), String> {
    let scratch = Scratch::new();
    let path = scratch.path("data");
    let rounds = c.size(1, 3);
    for _ in 0..rounds {
        let len = if c.chance(1, 10) { c.size(0, 3000) } else { c.size(0, 12) };
        let v: Vec<T> = (0..len).map(|_| T::gen(c)).collect();
        c.note(|| format!("{} {:?}", name, v));
        if len > 1 {
            c.nontrivial();
        }
        let res = match c.draw(3) {
            0 => v.write_to(&path),
            1 => v.clone().into_boxed_slice().write_to(&path),
            2 => (&v[..]).write_to(&path),
            _ => (*v).write_to(&path),
        };
        ensure!(res.is_ok(), "writing {} elements of {} failed: {:?}", len, name, res);
        let raw = std::fs::read(&path).map_err(|e| e.to_string())?;
        let want: Vec<u8> = v.iter().flat_map(|x| x.bytes()).collect();
        ensure!(raw == want, "file of {:?} ({}) holds {:?}, expected {:?}", v, name, raw, want);
        let back = accepted(|| Vec::<T>::load_from(&path));
        ensure!(back.as_ref().map_or(false, |b| same(b, &v)), "{}: wrote {:?}, loaded {:?}", name, v, back);
        let back = accepted(|| Box::<[T]>::load_from(&path));
        ensure!(back.as_ref().map_or(false, |b| same(b, &v)), "{}: wrote {:?}, loaded {:?} as boxed slice", name, v, back);
    }
    Ok(())
}

fn vectors(c: &mut Case) -> Result<(), String> {
    match c.draw(10) {
        0 => vector_of::<u32>(c, "u32"),
        1 => vector_of::<u64>(c, "u64"),
        2 => vector_of::<u8>(c, "u8"),
        3 => vector_of::<u16>(c, "u16"),
        4 => vector_of::<i32>(c, "i32"),
        5 => vector_of::<i64>(c, "i64"),
        6 => vector_of::<f32>(c, "f32"),
        7 => vector_of::<f64>(c, "f64"),
        8 => vector_of::<(u32, u32)>(c, "(u32, u32)"),
        9 => vector_of::<(u64, i64)>(c, "(u64, i64)"),
        _ => vector_of::<(f32, u32)>(c, "(f32, u32)"),
    }
}

fn malformed_of<T: Elem>(c: &mut Case, name: &str) -> Result<(), String> {
    let scratch = Scratch::new();
    let path = scratch.path("data");
    let size = std::mem::size_of::<T>();
    match c.weighted(&[8, 1, 1]) {
        0 => {
            let len = if c.coin() { c.size(0, 40) } else { (c.size(0, 20) * size + c.size(0, 2)).saturating_sub(1) };
            let bytes: Vec<u8> = (0..len).map(|_| c.u32(0, 255) as u8).collect();
            c.note(|| format!("{} from {:?}", name, bytes));
            std::fs::write(&path, &bytes).unwrap();
            let vec = accepted(|| Vec::<T>::load_from(&path));
            let boxed = accepted(|| Box::<[T]>::load_from(&path));
            if len % size != 0 {
                c.nontrivial();
                c.label("wrong-size");
                ensure!(vec.is_none(), "a file of {} bytes was accepted as {} and gave {:?}", len, name, vec);
                ensure!(boxed.is_none(), "a file of {} bytes was accepted as {} and gave {:?}", len, name, boxed);
            } else {
                if len > size {
                    c.nontrivial();
                }
                let want: Vec<T> = bytes.chunks(size).map(T::from_bytes).collect();
                ensure!(vec.as_ref().map_or(false, |v| same(v, &want)), "{:?} as {}: got {:?}, expected {:?}", bytes, name, vec, want);
                ensure!(boxed.as_ref().map_or(false, |v| same(v, &want)), "{:?} as {}: got {:?}, expected {:?}", bytes, name, boxed, want);
            }
        }
        1 => {
            c.label("missing");
            let r = accepted(|| Vec::<T>::load_from(&path));
            ensure!(r.is_none(), "loading a missing file gave {:?}", r);
            let r = accepted(|| Box::<[T]>::load_from(scratch.path("no/such/dir")));
            ensure!(r.is_none(), "loading a missing file gave {:?}", r);
        }
        _ => {
            c.label("directory");
            std::fs::create_dir(&path).unwrap();
            if c.coin() {
                std::fs::write(path.join("x"), [1, 2, 3, 4]).unwrap();
            }
            let r = accepted(|| Vec::<T>::load_from(&path));
            ensure!(r.as_ref().map_or(true, |v| v.is_empty()), "loading a directory gave {:?}", r);
            let res = vec![T::default()].write_to(&path);
            ensure!(res.is_err(), "writing over a directory reported success");
        }
    }
    Ok(())
}

fn malformed(c: &mut Case) -> Result<(), String> {
    match c.draw(5) {
        0 => malformed_of::<u32>(c, "u32"),
        1 => malformed_of::<u64>(c, "u64"),
        2 => malformed_of::<u16>(c, "u16"),
        3 => malformed_of::<f32>(c, "f32"),
        4 => malformed_of::<f64>(c, "f64"),
        _ => malformed_of::<(u32, u32)>(c, "(u32, u32)"),
    }
}

fn le(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn file_is(scratch: &Path, name: &str, v: &[u32]) -> Result<(), String> {
    let raw = std::fs::read(scratch.join(name)).map_err(|e| format!("{}: {}", name, e))?;
    ensure!(raw == le(v), "file {} holds {:?}, expected {:?}", name, raw, v);
    Ok(())
}

/// Shorten or lengthen a file or remove it. Returns a description.
/// With partial, the new size is not a multiple of four (losing whole elements cannot always be noticed).
fn damage(c: &mut Case, path: &Path, partial: bool) -> String {
    let mut bytes = std::fs::read(path).unwrap();
    let amount = |c: &mut Case| if partial { 4 * c.size(0, 2) + c.size(1, 3) } else { c.size(1, 9) };
    match c.draw(3) {
        0 if bytes.len() > 12 => {
            let cut = amount(c);
            bytes.truncate(bytes.len() - cut);
            std::fs::write(path, &bytes).unwrap();
            format!("{:?} shortened by {} bytes", path.file_name().unwrap(), cut)
        }
        1 => {
            let add = amount(c);
            bytes.extend(std::iter::repeat(1u8).take(add));
            std::fs::write(path, &bytes).unwrap();
            format!("{:?} lengthened by {} bytes", path.file_name().unwrap(), add)
        }
        _ => {
            std::fs::remove_file(path).unwrap();
            format!("{:?} removed", path.file_name().unwrap())
        }
    }
}

fn graphs(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { inf: true, ..CFG });
    c.note(|| g.desc());
    let graph = g.owned();
    let scratch = Scratch::new();
    let dir = scratch.path("graph");
    if c.coin() {
        // storing into an existing directory overwrites what was there
        std::fs::create_dir(&dir).unwrap();
        for f in ["first_out", "head", "weights"] {
            std::fs::write(dir.join(f), vec![7u8; c.size(0, 200)]).unwrap();
        }
    }
    if g.m() > 1 {
        c.nontrivial();
    }
    ensure!(graph.deconstruct_to(&dir).is_ok(), "storing the graph failed");
    file_is(&dir, "first_out", &g.first_out())?;
    file_is(&dir, "head", &g.head())?;
    file_is(&dir, "weights", &g.weights())?;

    let check = |b: Option<OwnedGraph>, what: &str, w: &[u32]| -> Result<(), String> {
        let b = b.ok_or_else(|| format!("{} cannot be loaded", what))?;
        ensure_eq!(b.first_out(), &g.first_out()[..], "{}: first_out", what);
        ensure_eq!(b.head(), &g.head()[..], "{}: head", what);
        ensure_eq!(b.weight(), w, "{}: weights", what);
        Ok(())
    };
    check(accepted(|| OwnedGraph::reconstruct_from(&dir)), "graph", &g.weights())?;
    // further metrics by name
    let other: Vec<u32> = (0..g.m()).map(|_| c.u32(0, INFINITY)).collect();
    other.write_to(&dir.join("travel_time")).unwrap();
    let named = WeightedGraphReconstructor("travel_time");
    check(accepted(|| named.reconstruct_from(&dir)), "graph with named metric", &other)?;
    let unweighted = accepted(|| UnweightedOwnedGraph::reconstruct_from(&dir)).ok_or("unweighted graph cannot be loaded")?;
    ensure_eq!((unweighted.first_out(), unweighted.head()), (&g.first_out()[..], &g.head()[..]), "unweighted graph");
    let dir2 = scratch.path("topology");
    ensure!(unweighted.deconstruct_to(&dir2).is_ok(), "storing the topology failed");
    file_is(&dir2, "first_out", &g.first_out())?;
    file_is(&dir2, "head", &g.head())?;

    let ord = NodeOrder::from_node_order(c.permutation(g.n));
    ensure!(ord.deconstruct_to(&dir2).is_ok(), "storing the order failed");
    file_is(&dir2, "ranks", ord.ranks())?;
    let back = accepted(|| NodeOrder::reconstruct_from(&dir2)).ok_or("order cannot be loaded")?;
    ensure_eq!((back.order(), back.ranks()), (ord.order(), ord.ranks()), "order");

    // damaged
    let f = *c.pick(&["first_out", "head", "weights"]);
    let what = damage(c, &dir.join(f), f == "first_out");
    c.note(|| what.clone());
    ensure!(accepted(|| <OwnedGraph>::reconstruct_from(&dir)).is_none(), "graph was loaded although {}", what);
    if f != "weights" {
        ensure!(accepted(|| UnweightedOwnedGraph::reconstruct_from(&dir)).is_none(), "topology was loaded although {}", what);
        ensure!(accepted(|| WeightedGraphReconstructor("travel_time").reconstruct_from(&dir)).is_none(), "weighted graph was loaded although {}", what);
    }
    ensure!(accepted(|| WeightedGraphReconstructor("nope").reconstruct_from(&dir)).is_none(), "graph with missing metric was loaded");
    Ok(())
}

fn bits(c: &mut Case) -> Result<(), String> {
    let scratch = Scratch::new();
    let path = scratch.path("bits");
    let n = *c.pick(&[0usize, 1, 63, 64, 65, 130, 511, 512, 513, 2000]) + c.size(0, 3);
    let mut v = BitVec::new(n);
    let mut want = vec![false; (n + 63) / 64 * 64];
    let density = *c.pick(&[1u64, 4, 8]);
    for i in 0..n {
        if c.chance(density, 8) {
            v.set(i);
            want[i] = true;
        }
    }
    if want.iter().filter(|&&b| b).count() > 1 {
        c.nontrivial();
    }
    ensure!(v.write_to(&path).is_ok(), "writing failed");
    let raw = std::fs::read(&path).unwrap();
    ensure_eq!(raw.len() * 8, want.len(), "bits in the file for {} bits", n);
    for (i, &b) in want.iter().enumerate() {
        ensure_eq!(raw[i / 8] >> (i % 8) & 1 == 1, b, "bit {} of {} in the file", i, n);
    }
    let back = accepted(|| BitVec::load_from(&path)).ok_or("bit set cannot be loaded")?;
    ensure!(back.len() >= n && back.len() <= want.len(), "stored {} bits, loaded {}", n, back.len());
    for i in 0..back.len() {
        ensure_eq!(back.get(i), want[i], "bit {} of {} after loading", i, n);
    }
    ensure_eq!(back.count_ones(), want.iter().filter(|&&b| b).count(), "number of ones");
    // a rank select map is stored as its bit set
    let map = RankSelectMap::new(v);
    ensure!(map.write_to(&path).is_ok(), "writing failed");
    ensure!(std::fs::read(&path).unwrap() == raw, "map file differs from its bit set file");
    let again = RankSelectMap::new(accepted(|| BitVec::load_from(&path)).ok_or("bit set cannot be loaded")?);
    ensure_eq!(again.len(), map.len(), "size of loaded map");
    for i in 0..n {
        ensure_eq!(again.get(i), map.get(i), "local id of {} in loaded map", i);
    }
    // wrong size
    let extra = c.size(1, 7);
    let mut raw = raw;
    if c.coin() || raw.is_empty() {
        raw.extend(vec![0u8; extra]);
    } else {
        raw.truncate(raw.len() - extra);
    }
    std::fs::write(&path, &raw).unwrap();
    ensure!(accepted(|| BitVec::load_from(&path)).is_none(), "a bit set file with {} bytes was accepted", raw.len());
    Ok(())
}

fn distances<S>(server: &mut S, qs: &[(u32, u32)]) -> Vec<(Option<u32>, Option<Vec<u32>>)>
where
    S: FnMut(u32, u32) -> (Option<u32>, Option<Vec<u32>>),
{
    qs.iter().map(|&(s, t)| server(s, t)).collect()
}

fn hierarchies(c: &mut Case) -> Result<(), String> {
    let g = graph(c, &Cfg { inf: false, ..CFG });
    c.note(|| g.desc());
    let graph = g.owned();
    let ord = order(c, &g);
    let qs: Vec<(u32, u32)> = (0..c.size(2, 8)).map(|_| (c.u32(0, g.n as u32 - 1), c.u32(0, g.n as u32 - 1))).collect();
    let d = g.all_dists();
    if qs.iter().any(|&(s, t)| s != t && d[s as usize][t as usize] != INF) {
        c.nontrivial();
    }
    let scratch = Scratch::new();
    let dir = scratch.path("cch");

    let cch = CCH::fix_order_and_build(&graph, ord.clone());
    ensure!(cch.node_order().deconstruct_to(&dir).is_ok() && cch.deconstruct_to(&dir).is_ok(), "storing the CCH failed");
    file_is(&dir, "cch_first_out", cch.first_out())?;
    file_is(&dir, "cch_head", cch.head())?;
    file_is(&dir, "ranks", cch.node_order().ranks())?;
    let back = accepted(|| CCHReconstrctor(&graph).reconstruct_from(&dir)).ok_or("CCH cannot be loaded")?;
    ensure_eq!((back.first_out(), back.head()), (cch.first_out(), cch.head()), "CCH graph");
    ensure_eq!(back.node_order().ranks(), cch.node_order().ranks(), "CCH order");
    ensure!(back.node_order().order() == cch.node_order().order(), "CCH order");
    ensure_eq!(back.forward_tail(), cch.forward_tail(), "CCH tails");
    let tree = |c: &CCH| c.elimination_tree().iter().map(|o| o.value()).collect::<Vec<_>>();
    ensure_eq!(tree(&back), tree(&cch), "elimination tree");
    let (a, b) = (customize(&cch, &graph), customize(&back, &graph));
    for (x, y) in [(a.forward_graph(), b.forward_graph()), (a.backward_graph(), b.backward_graph())] {
        ensure_eq!(y.weight(), x.weight(), "customized loaded CCH");
    }

    // perfect customization
    let perfect = customize_perfect(a);
    let pdir = scratch.path("perfect");
    ensure!(perfect.deconstruct_to(&pdir).is_ok(), "storing the perfect customization failed");
    let loaded: Option<CustomizedPerfect<CCH>> = accepted(|| (&back).reconstruct_from(&pdir));
    let loaded = loaded.ok_or("perfect customization cannot be loaded")?;
    for (x, y, what) in [(perfect.forward_graph(), loaded.forward_graph(), "forward"), (perfect.backward_graph(), loaded.backward_graph(), "backward")] {
        ensure_eq!((y.first_out(), y.head(), y.weight()), (x.first_out(), x.head(), x.weight()), "perfect {} graph", what);
    }
    ensure_eq!(loaded.forward_tail(), perfect.forward_tail(), "perfect tails");
    ensure_eq!(loaded.backward_tail(), perfect.backward_tail(), "perfect tails");
    let (mut before, mut after) = (CchServer::new(perfect), CchServer::new(loaded));
    let mut run = |s: u32, t: u32| {
        let r = before.query(Query { from: s, to: t });
        let r = (r.distance(), r);
        (r.0, { let mut r = r.1; r.node_path() })
    };
    let want = distances(&mut run, &qs);
    let mut run = |s: u32, t: u32| {
        let mut r = after.query(Query { from: s, to: t });
        (r.distance(), r.node_path())
    };
    let got = distances(&mut run, &qs);
    ensure_eq!(got, want, "queries {:?} on the loaded perfect customization", qs);

    // CH potential data
    let (up, down) = overlay(&graph, ord.clone(), g.n);
    let hdir = scratch.path("ch");
    std::fs::create_dir(&hdir).unwrap();
    for (name, g) in [("forward", &up), ("backward", &down)] {
        g.first_out().write_to(&hdir.join(format!("{}_first_out", name))).unwrap();
        g.head().write_to(&hdir.join(format!("{}_head", name))).unwrap();
        g.weight().write_to(&hdir.join(format!("{}_weight", name))).unwrap();
    }
    ord.order().write_to(&hdir.join("order")).unwrap();
    let loader = accepted(|| CHPotLoader::reconstruct_from(&hdir)).ok_or("CH cannot be loaded")?;
    for (x, y, what) in [(&up, loader.forward_graph(), "forward"), (&down, loader.backward_graph(), "backward")] {
        ensure_eq!((y.first_out(), y.head(), y.weight()), (x.first_out(), x.head(), x.weight()), "CH {} graph", what);
    }
    ensure_eq!(loader.order().order(), ord.order(), "CH order");
    let mut pot = accepted(|| CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&hdir)).ok_or("CH potential cannot be loaded")?;
    for &(s, t) in &qs {
        Potential::init(&mut pot, t);
        ensure_eq!(Potential::potential(&mut pot, s), w(d[s as usize][t as usize]), "loaded CH potential {}->{}", s, t);
    }

    // damaged
    let (dir, f) = *c.pick(&[(&dir, "cch_first_out"), (&dir, "cch_head"), (&dir, "ranks"), (&hdir, "forward_head"), (&hdir, "backward_weight"), (&hdir, "order"), (&hdir, "forward_first_out")]);
    let path = dir.join(f);
    let what = if matches!(f, "ranks" | "order") {
        std::fs::remove_file(&path).unwrap();
        format!("{} removed", f)
    } else {
        damage(c, &path, f.ends_with("first_out"))
    };
    c.note(|| what.clone());
    if dir.ends_with("cch") {
        ensure!(accepted(|| CCHReconstrctor(&graph).reconstruct_from(&dir)).is_none(), "CCH was loaded although {}", what);
    } else {
        ensure!(accepted(|| CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&dir)).is_none(), "CH was loaded although {}", what);
    }
    Ok(())
}

fn write_td(g: &TdG, dir: &Path) {
    let (f, d, t) = g.ipps();
    std::fs::create_dir_all(dir).unwrap();
    g.first_out().write_to(&dir.join("first_out")).unwrap();
    g.head().write_to(&dir.join("head")).unwrap();
    f.write_to(&dir.join("first_ipp_of_arc")).unwrap();
    d.write_to(&dir.join("ipp_departure_time")).unwrap();
    t.write_to(&dir.join("ipp_travel_time")).unwrap();
}

fn td_graphs(c: &mut Case) -> Result<(), String> {
    let g = td_graph(c, &Cfg { max_n: 8, ..CFG }, 6, 7_200_000);
    c.note(|| g.desc());
    if g.edges.len() > 1 {
        c.nontrivial();
    }
    let scratch = Scratch::new();
    let dir = scratch.path("td");
    write_td(&g, &dir);
    let back = accepted(|| TDGraph::reconstruct_from(&dir)).ok_or("time-dependent graph cannot be loaded")?;
    ensure_eq!((back.first_out(), back.head()), (&g.first_out()[..], &g.head()[..]), "topology");
    let (f, d, t) = g.ipps();
    let fl = ftd::TDGraph::new(g.first_out(), g.head(), f, d, t);
    let flback = accepted(|| ftd::TDGraph::reconstruct_from(&dir)).ok_or("floating time-dependent graph cannot be loaded")?;
    ensure_eq!((flback.first_out(), flback.head()), (&g.first_out()[..], &g.head()[..]), "topology");
    for e in 0..g.edges.len() {
        let raw = &g.edges[e].2;
        for _ in 0..4 {
            let at = instant(c, &[raw]);
            ensure_eq!(back.travel_time_function(e as u32).eval(at) as u64, eval(raw, at as u64), "edge {} at {}", e, at);
        }
        let pts = |g: &ftd::TDGraph| g.travel_time_function(e as u32).iter().map(|p| (f64::from(p.at), f64::from(p.val))).collect::<Vec<_>>();
        ensure_eq!(pts(&flback), pts(&fl), "function of edge {}", e);
        let want: Vec<(f64, f64)> = if raw.len() == 1 {
            vec![(0.0, raw[0].1 as f64 / 1000.0)]
        } else {
            full(raw).iter().map(|&(a, b)| (a as f64 / 1000.0, b as f64 / 1000.0)).collect()
        };
        ensure_eq!(pts(&flback), want, "function of edge {}", e);
    }

    // live data
    if !g.edges.is_empty() {
        let t_live = c.u32(0, P - 1);
        let mut live: Vec<(u32, u32, u32)> = Vec::new();
        let mut want = vec![None; g.edges.len()];
        for e in c.permutation(g.edges.len()) {
            if c.coin() {
                let w = if c.chance(1, 4) { INFINITY } else { c.u32(0, 7_200_000) };
                let dur = *c.pick(&[0, 1000, 3_600_000, P - 1, P, P + 1, 2 * P]);
                live.push((e, w, dur));
                if dur < P {
                    want[e as usize] = Some((w, dur + t_live));
                }
            }
        }
        c.note(|| format!("live {:?} at {}", live, t_live));
        live.write_to(&dir.join("live")).unwrap();
        let loaded: Option<PessimisticLiveTDGraph> = accepted(|| ("live".to_string(), t_live).reconstruct_from(&dir));
        let loaded = loaded.ok_or("live graph cannot be loaded")?;
        let built = PessimisticLiveTDGraph::new(g.td(), want.iter().map(|o| match o { Some(x) => InRangeOption::some(*x), None => InRangeOption::NONE }).collect());
        for e in 0..g.edges.len() {
            for _ in 0..3 {
                let at = t_live + c.u32(0, P / 8);
                ensure_eq!(loaded.eval(e as u32, at), built.eval(e as u32, at), "live edge {} at {}", e, at);
            }
        }
        let what = damage(c, &dir.join("live"), true);
        let r: Option<PessimisticLiveTDGraph> = accepted(|| ("live".to_string(), t_live).reconstruct_from(&dir));
        ensure!(r.is_none(), "live graph was loaded although {}", what);
    }

    let f = *c.pick(&["first_out", "head", "first_ipp_of_arc", "ipp_departure_time", "ipp_travel_time"]);
    let what = damage(c, &dir.join(f), true);
    c.note(|| what.clone());
    ensure!(accepted(|| TDGraph::reconstruct_from(&dir)).is_none(), "time-dependent graph was loaded although {}", what);
    ensure!(accepted(|| ftd::TDGraph::reconstruct_from(&dir)).is_none(), "floating time-dependent graph was loaded although {}", what);
    Ok(())
}

fn td_preprocessing(c: &mut Case) -> Result<(), String> {
    // CATCHUp insists on simple graphs
    let cfg = Cfg { max_n: 9, zero: false, parallel: false, ..CFG };
    let sg = gen_nonempty(c, &cfg);
    let g = td_fl(c, &sg, 4, 7_200_000, 1_000);
    c.note(|| g.desc());
    c.nontrivial();
    let graph = g.td();
    let (f, d, t) = g.ipps();
    let fl = ftd::TDGraph::new(g.first_out(), g.head(), f, d, t);
    let ord = order(c, &sg);
    let cch = CCH::fix_order_and_build(&graph, ord);
    let n = g.n as u32;
    let qs: Vec<(u32, u32, u32)> = (0..4).map(|_| (c.u32(0, n - 1), c.u32(0, n - 1), c.u32(0, P - 1))).collect();
    let scratch = Scratch::new();

    let probe = |pot: &mut dyn FnMut(Option<(u32, u32, u32)>, u32, Option<u32>) -> Option<u32>| -> Vec<Option<u32>> {
        let mut r = Vec::new();
        for &q in &qs {
            pot(Some(q), 0, None);
            let reach = g.arrivals(q.0, q.2 as u64, &|e, t| Some(eval(&g.edges[e].2, t)));
            for v in 0..n {
                // potentials are only asked at nodes the search reaches
                if reach[v as usize] != INF && reach[v as usize] < 2 * P as u64 {
                    r.push(pot(None, v, Some(reach[v as usize] as u32)));
                }
            }
        }
        r
    };
    fn driver<'a, T: TDPotential>(p: &'a mut T) -> impl FnMut(Option<(u32, u32, u32)>, u32, Option<u32>) -> Option<u32> + 'a {
        move |q, v, t| match q {
            Some((s, d, dep)) => {
                p.init(s, d, dep);
                None
            }
            None => p.potential(v, t),
        }
    }

    match c.draw(3) {
        0 => {
            c.label("multi-metric");
            let reduce = if c.coin() { Some(c.size(1, 10)) } else { None };
            let mmp = MultiMetricPreprocessed::new(&cch, ranges(), &graph, reduce);
            let dir = scratch.path("mmp");
            ensure!(mmp.deconstruct_to(&dir).is_ok(), "storing multi metric preprocessing failed");
            let back: Option<MultiMetricPreprocessed> = accepted(|| (&cch).reconstruct_from(&dir));
            let back = back.ok_or("multi metric preprocessing cannot be loaded")?;
            let mut a = MultiMetric::new(mmp);
            let mut b = MultiMetric::new(back);
            let dir = scratch.path("mm");
            ensure!(a.deconstruct_to(&dir).is_ok(), "storing multi metric potential failed");
            let loaded: Option<MultiMetric> = accepted(|| (&cch).reconstruct_from(&dir));
            let mut l = loaded.ok_or("multi metric potential cannot be loaded")?;
            let want = probe(&mut driver(&mut a));
            ensure_eq!(probe(&mut driver(&mut b)), want, "potentials of loaded multi metric preprocessing");
            ensure_eq!(probe(&mut driver(&mut l)), want, "loaded multi metric potentials");
        }
        1 => {
            c.label("interval-min");
            let data = ftd_for_pot::customize::<24>(&cch, &fl);
            let dir = scratch.path("potdata");
            ensure!(data.deconstruct_to(&dir).is_ok(), "storing interval preprocessing failed");
            let back = accepted(|| PotData::reconstruct_from(&dir)).ok_or("interval preprocessing cannot be loaded")?;
            ensure_eq!(back.fw_static_bound, data.fw_static_bound, "fw_static_bound");
            ensure_eq!(back.bw_static_bound, data.bw_static_bound, "bw_static_bound");
            ensure_eq!(back.fw_bucket_bounds, data.fw_bucket_bounds, "fw_bucket_bounds");
            ensure_eq!(back.bw_bucket_bounds, data.bw_bucket_bounds, "bw_bucket_bounds");
            ensure_eq!(back.fw_required, data.fw_required, "fw_required");
            ensure_eq!(back.bw_required, data.bw_required, "bw_required");
            ensure_eq!(back.fw_first_source, data.fw_first_source, "fw_first_source");
            ensure_eq!(back.bw_first_source, data.bw_first_source, "bw_first_source");
            ensure_eq!(format!("{:?}", back.fw_sources), format!("{:?}", data.fw_sources), "fw_sources");
            ensure_eq!(format!("{:?}", back.bw_sources), format!("{:?}", data.bw_sources), "bw_sources");
            ensure_eq!(back.bucket_to_metric, data.bucket_to_metric, "bucket_to_metric");
            let mut a = IntervalMinPotential::new(&cch, data);
            let mut b = IntervalMinPotential::new(&cch, back);
            let dir = scratch.path("im");
            ensure!(a.deconstruct_to(&dir).is_ok(), "storing interval min potential failed");
            let loaded: Option<IntervalMinPotential<(Weight, Weight)>> = accepted(|| (&cch).reconstruct_from(&dir));
            let mut l = loaded.ok_or("interval min potential cannot be loaded")?;
            let want = probe(&mut driver(&mut a));
            ensure_eq!(probe(&mut driver(&mut b)), want, "potentials of loaded interval preprocessing");
            ensure_eq!(probe(&mut driver(&mut l)), want, "loaded interval min potentials");
        }
        _ => {
            c.label("catchup");
            let customized = catchup::customize(&cch, &fl);
            let dir = scratch.path("catchup");
            ensure!(customized.deconstruct_to(&dir).is_ok(), "storing CATCHUp customization failed");
            let prep = ftd::CustomizedGraphReconstrctor { original_graph: &fl, first_out: cch.first_out(), head: cch.head() };
            let back = accepted(|| prep.reconstruct_from(&dir)).ok_or("CATCHUp customization cannot be loaded")?;
            let dir2 = scratch.path("again");
            ensure!(back.deconstruct_to(&dir2).is_ok(), "storing CATCHUp customization failed");
            for f in std::fs::read_dir(&dir).unwrap() {
                let name = f.unwrap().file_name();
                ensure!(
                    std::fs::read(dir.join(&name)).unwrap() == std::fs::read(dir2.join(&name)).unwrap_or_default(),
                    "file {:?} differs after loading and storing again",
                    name
                );
            }
            let run = |cust: &ftd::CustomizedGraph| {
                let mut server = catchup::Server::new(&cch, cust);
                qs.iter()
                    .map(|&(from, to, dep)| {
                        let mut r = server.td_query(TDQuery { from, to, departure: ftd::Timestamp::new(dep as f64 / 1000.0) });
                        format!("{:?} {:?}", r.distance(), r.node_path())
                    })
                    .collect::<Vec<_>>()
            };
            let want = run(&customized);
            ensure_eq!(run(&back), want, "queries {:?} on loaded CATCHUp customization", qs);
        }
    }
    Ok(())
}

/// A graph with at least one arc between different nodes.
pub fn gen_nonempty(c: &mut Case, cfg: &Cfg) -> G {
    let mut g = graph(c, &Cfg { min_n: cfg.min_n.max(2), ..*cfg });
    if g.edges.iter().all(|e| e.0 == e.1) {
        g.edges.push((0, 1, 1));
        g.edges.sort_by_key(|e| e.0);
    }
    g
}
