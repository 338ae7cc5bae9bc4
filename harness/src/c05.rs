//! The result of a customization does not depend on the number of threads or the split of the work.

use crate::c03::*;
use crate::gen::*;
use crate::pbt::{Sub, *};
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;

pub static PROP: Property = Property {
    id: "C05",
    rule: "the hierarchy has at least one lower triangle (some arc is improved by customization) and the customization ran with at least two different worker counts",
    subs: &[
        Sub { name: "threads", f: threads, quick: 3_000, thorough: 150_000, big: false },
        Sub { name: "threads_big", f: threads, quick: 700, thorough: 40_000, big: true },
    ],
};

/// Run `f` with the given number of CPUs available and inside a pool of the given size.
pub fn with_workers<R: Send>(cpus: usize, pool: usize, f: impl FnOnce() -> R + Send) -> R {
    static OFFSET: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let all = all_cpus();
    let off = OFFSET.fetch_add(3, std::sync::atomic::Ordering::Relaxed);
    let set: Vec<usize> = (0..cpus.min(all.len())).map(|i| all[(i + off) % all.len()]).collect();
    let s2 = set.clone();
    let p = rayon::ThreadPoolBuilder::new()
        .num_threads(pool)
        .stack_size(64 << 20)
        .start_handler(move |_| pin(&s2))
        .build()
        .unwrap();
    p.install(f)
}

struct Reference {
    up: Vec<u32>,
    down: Vec<u32>,
    perfect_up: Vec<u32>,
    perfect_down: Vec<u32>,
    improved: bool,
}

/// Sequential textbook customization on the arcs of the hierarchy.
fn reference(g: &G, cch: &impl CCHT, n: usize) -> Reference {
    let ord = cch.node_order();
    let key = |t: u32, h: u32| (t as u64) << 32 | h as u64;
    let mut fw = std::collections::HashMap::new();
    let mut bw = std::collections::HashMap::new();
    for e in 0..cch.forward_head().len() {
        fw.insert(key(cch.forward_tail()[e], cch.forward_head()[e]), e);
    }
    for e in 0..cch.backward_head().len() {
        bw.insert(key(cch.backward_tail()[e], cch.backward_head()[e]), e);
    }
    let inf = INFINITY;
    let mut up = vec![inf; fw.len()];
    let mut down = vec![inf; bw.len()];
    for &(a, b, w) in &g.edges {
        let (a, b) = (ord.rank(a), ord.rank(b));
        if a < b {
            let e = fw[&key(a, b)];
            up[e] = up[e].min(w);
        } else if b < a {
            let e = bw[&key(b, a)];
            down[e] = down[e].min(w);
        }
    }
    let (u0, d0) = (up.clone(), down.clone());
    let mut out = vec![Vec::new(); n];
    let mut inc = vec![Vec::new(); n];
    for e in 0..up.len() {
        out[cch.forward_tail()[e] as usize].push((cch.forward_head()[e], e));
    }
    for e in 0..down.len() {
        inc[cch.backward_tail()[e] as usize].push((cch.backward_head()[e], e));
    }
    for v in 0..n {
        for &(a, ea) in &inc[v] {
            for &(b, eb) in &out[v] {
                // a -> v -> b
                let w = down[ea] + up[eb];
                if a < b {
                    if let Some(&e) = fw.get(&key(a, b)) {
                        up[e] = up[e].min(w);
                    }
                } else if b < a {
                    if let Some(&e) = bw.get(&key(b, a)) {
                        down[e] = down[e].min(w);
                    }
                }
            }
        }
    }
    let improved = up != u0 || down != d0;
    let (mut pu, mut pd) = (up.clone(), down.clone());
    for v in (0..n as u32).rev() {
        // iterate until nothing changes: the order in which triangles are relaxed must not matter
        loop {
            let mut changed = false;
            for &(a, ea) in &out[v as usize] {
                for &(b, eb) in &out[v as usize] {
                    let over = if a < b { fw.get(&key(a, b)).map(|&e| pu[e]) } else { bw.get(&key(b, a)).map(|&e| pd[e]) };
                    if a == b {
                        continue;
                    }
                    if let Some(w) = over {
                        if pu[ea] + w < pu[eb] {
                            pu[eb] = pu[ea] + w;
                            changed = true;
                        }
                    }
                }
            }
            for &(a, ea) in &inc[v as usize] {
                for &(b, eb) in &inc[v as usize] {
                    if a == b {
                        continue;
                    }
                    // b -> a -> v improves b -> v
                    let over = if b < a { fw.get(&key(b, a)).map(|&e| pu[e]) } else { bw.get(&key(a, b)).map(|&e| pd[e]) };
                    if let Some(w) = over {
                        if pd[ea] + w < pd[eb] {
                            pd[eb] = pd[ea] + w;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
    }
    Reference { up, down, perfect_up: pu, perfect_down: pd, improved }
}

fn arcs(g: BorrowedGraph) -> Vec<(u32, u32, u32)> {
    (0..g.num_nodes() as u32).flat_map(|v| LinkIterable::<Link>::link_iter(&g, v).map(move |l| (v, l.node, l.weight)).collect::<Vec<_>>()).collect()
}

fn surviving(tail: &[u32], head: &[u32], basic: &[u32], perfect: &[u32]) -> Vec<(u32, u32, u32)> {
    (0..tail.len()).filter(|&e| basic[e] == perfect[e]).map(|e| (tail[e], head[e], perfect[e])).collect()
}

use rust_road_router::datastr::graph::first_out_graph::BorrowedGraph;

fn threads(c: &mut Case) -> Result<(), String> {
    let cfg = Cfg { inf: true, max_n: if c.big { 600 } else { 12 }, min_n: if c.big { 40 } else { 1 }, ..CFG };
    let g = graph(c, &cfg);
    let ord = order(c, &g);
    c.note(|| format!("{} order={:?}", g.desc(), ord.order()));
    let cch = CCH::fix_order_and_build(&g.owned(), ord);
    if c.big && cch.num_arcs() > 20_000 {
        return Ok(());
    }
    let m = if c.coin() { g.clone() } else { metric(c, &g, &cfg) };
    let graph = m.owned();
    let directed = c.chance(1, 3);
    let k = c.size(2, 3);
    let mut confs = Vec::new();
    for _ in 0..k {
        confs.push((*c.pick(&[1usize, 1, 2, 3, 4, 8]), *c.pick(&[1usize, 2, 3, 5, 8])));
    }
    c.note(|| format!("metric {:?} directed {} (cpus, pool) {:?}", m.weights(), directed, confs));
    let n = g.n;
    if directed {
        let d = cch.to_directed_cch();
        let r = reference(&m, &d, n);
        if r.improved && confs.iter().any(|x| x.0 != confs[0].0) {
            c.nontrivial();
        }
        for &(cp, pool) in &confs {
            let (up, down) = with_workers(cp, pool, || customize_directed(&d, &graph).into_weights());
            ensure!(up == r.up && down == r.down, "directed customization with {:?} differs from the sequential one", (cp, pool));
            with_workers(cp, pool, || {
                let p = customize_directed_perfect(customize_directed(&d, &graph));
                check_survivors(&m, &p, (cp, pool))
            })?;
        }
        // the same arcs survive for every configuration
        let first = with_workers(confs[0].0, confs[0].1, || {
            let p = customize_directed_perfect(customize_directed(&d, &graph));
            (arcs(p.forward_graph()), arcs(p.backward_graph()))
        });
        for &(cp, pool) in &confs[1..] {
            let other = with_workers(cp, pool, || {
                let p = customize_directed_perfect(customize_directed(&d, &graph));
                (arcs(p.forward_graph()), arcs(p.backward_graph()))
            });
            ensure!(first == other, "directed perfect customization with {:?} differs from the one with {:?}", (cp, pool), confs[0]);
        }
    } else {
        let r = reference(&m, &cch, n);
        if r.improved && confs.iter().any(|x| x.0 != confs[0].0) {
            c.nontrivial();
        }
        let ef = surviving(cch.forward_tail(), cch.forward_head(), &r.up, &r.perfect_up);
        let eb = surviving(cch.backward_tail(), cch.backward_head(), &r.down, &r.perfect_down);
        for &(cp, pool) in &confs {
            let (up, down) = with_workers(cp, pool, || customize(&cch, &graph).into_weights());
            ensure!(up == r.up && down == r.down, "customization with {:?} differs from the sequential one", (cp, pool));
            with_workers(cp, pool, || {
                let p = customize_perfect(customize(&cch, &graph));
                ensure_eq!(arcs(p.forward_graph()), ef, "upward arcs after perfect customization with {:?}", (cp, pool));
                ensure_eq!(arcs(p.backward_graph()), eb, "downward arcs after perfect customization with {:?}", (cp, pool));
                check_survivors(&m, &p, (cp, pool))
            })?;
        }
    }
    Ok(())
}

/// Cheap structural check of a perfect customization: tails, unpacking consistent with the weights.
fn check_survivors<C: Customized>(_g: &G, p: &C, conf: (usize, usize)) -> Result<(), String> {
    for (tails, graph) in [(p.forward_tail(), p.forward_graph()), (p.backward_tail(), p.backward_graph())] {
        ensure_eq!(tails.len(), graph.num_arcs(), "{:?}: number of tails", conf);
        for v in 0..graph.num_nodes() as u32 {
            for e in graph.neighbor_edge_indices(v) {
                ensure_eq!(tails[e as usize], v, "{:?}: tail of arc {}", conf, e);
            }
        }
    }
    Ok(())
}
