//! Time-dependent queries, with and without live traffic.

use std::cell::Cell;
use crate::c06::{with_pots, Pot};
use crate::gen::*;
use crate::pbt::{Sub, *};
use crate::td::*;
use rust_road_router::algo::ch_potentials::td_query::Server as TopoServer;
use rust_road_router::algo::ch_potentials::CCHPotData;
use rust_road_router::algo::customizable_contraction_hierarchy::{customization::ftd_for_pot, *};
use rust_road_router::algo::dijkstra::query::dijkstra::Server as DijkServer;
use rust_road_router::algo::dijkstra::query::disconnected_targets::CatchDisconnectedTarget;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::td_astar::{ranges, IntervalMinPotential, MultiMetric, MultiMetricPreprocessed, TDPotential, TDRecyclingPotential, TRange};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::util::in_range_option::InRangeOption;

pub static PROP: Property = Property {
    id: "C13",
    rule: "some query of the history has two different end points at a finite distance and some arc has a travel time changing over time (or a live report)",
    subs: &[
        Sub { name: "plain", f: plain, quick: 100_000, thorough: 4_000_000, big: false },
        Sub { name: "topo", f: topo, quick: 30_000, thorough: 3_000_000, big: false },
        Sub { name: "topo_big", f: topo, quick: 3_000, thorough: 200_000, big: true },
        Sub { name: "interval", f: interval, quick: 9_000, thorough: 600_000, big: false },
        Sub { name: "interval_big", f: interval, quick: 600, thorough: 40_000, big: true },
        Sub { name: "live", f: live, quick: 40_000, thorough: 2_000_000, big: false },
        Sub { name: "pessimistic", f: pessimistic, quick: 25_000, thorough: 2_000_000, big: false },
        Sub { name: "pessimistic_big", f: pessimistic, quick: 2_000, thorough: 100_000, big: true },
        Sub { name: "interval_live", f: interval_live, quick: 6_000, thorough: 400_000, big: false },
        Sub { name: "interval_live_big", f: interval_live, quick: 400, thorough: 20_000, big: true },
    ],
};

pub struct TdPot<'a>(pub Box<dyn TDPotential + 'a>);

impl<'a> TDPotential for TdPot<'a> {
    fn init(&mut self, source: NodeId, target: NodeId, departure: Timestamp) {
        self.0.init(source, target, departure)
    }
    fn potential(&mut self, node: NodeId, t: Option<Timestamp>) -> Option<Weight> {
        self.0.potential(node, t)
    }
}

/// The network as it should be understood: absolute earliest arrivals, and how to drive a path.
struct Net<'a> {
    tdg: &'a TdG,
    eval: &'a dyn Fn(usize, u64) -> Option<u64>,
    /// how much worse than the optimum a route may be
    slack: u64,
    from: u32,
    varied: bool,
    /// the pair queried last, to ask for it again at another time
    last: Cell<Option<(u32, u32)>>,
}

impl Net<'_> {
    fn query(&self, c: &mut Case, what: &str, run: &mut dyn FnMut(TDQuery<Timestamp>) -> (Option<Weight>, Option<Vec<NodeId>>)) -> Result<(), String> {
        let n = self.tdg.n as u32;
        let again = self.last.get().is_some() && c.chance(2, 5);
        let (s, t) = match self.last.get() {
            Some(pair) if again => pair,
            _ => (c.u32(0, n - 1), c.u32(0, n - 1)),
        };
        self.last.set(Some((s, t)));
        let raws: Vec<&Raw> = self.tdg.edges.iter().map(|e| &e.2).collect();
        let mut dep = if raws.is_empty() { c.u32(0, P - 1) } else { instant(c, &raws) };
        if c.chance(1, 4) {
            dep = P - 1 - c.u32(0, 3_600_000);
        }
        if dep < self.from {
            dep = (self.from + dep % 10_000_000).min(P - 1);
        }
        c.note(|| format!("{}: query {}->{} at {}", what, s, t, dep));
        let arrivals = self.tdg.arrivals(s, dep as u64, self.eval);
        let a = arrivals[t as usize];
        if s != t && a != INF && self.varied {
            c.nontrivial();
        }
        if a as u32 >= P && a != INF {
            c.label("arrival_next_day");
        }
        let want = if a == INF { None } else { Some(a - dep as u64) };
        let (dist, path) = run(TDQuery { from: s, to: t, departure: dep });
        match (dist, want) {
            (Some(d), Some(w)) => {
                ensure!(d as u64 >= w && d as u64 <= w + self.slack, "{}: travel time {}->{} at {} is {} instead of {}", what, s, t, dep, d, w);
                let path = path.ok_or_else(|| format!("{}: {}->{} at {}: no path", what, s, t, dep))?;
                self.drive(&path, s, t, dep as u64, d as u64, what)
            }
            _ => {
                ensure_eq!(dist.map(u64::from), want, "{}: travel time {}->{} at {}", what, s, t, dep);
                Ok(())
            }
        }
    }

    fn drive(&self, path: &[NodeId], s: u32, t: u32, dep: u64, dist: u64, what: &str) -> Result<(), String> {
        ensure!(path.first() == Some(&s) && path.last() == Some(&t), "{}: path {:?} does not lead from {} to {}", what, path, s, t);
        let mut at = dep;
        for w in path.windows(2) {
            let hop = self.tdg.edges.iter().enumerate().filter(|(_, e)| e.0 == w[0] && e.1 == w[1]).filter_map(|(i, _)| (self.eval)(i, at)).min();
            match hop {
                Some(tt) => at += tt,
                None => return Err(format!("{}: path {:?} uses the missing arc {}->{}", what, path, w[0], w[1])),
            }
        }
        ensure_eq!(at - dep, dist, "{}: driving the path {:?} at {}", what, path, dep);
        Ok(())
    }
}

fn tdg(c: &mut Case) -> TdG {
    let cfg = Cfg { min_n: 2, max_n: if c.big { 50 } else { 9 }, ..CFG };
    let mut g = graph(c, &cfg);
    if !g.edges.iter().any(|e| e.0 != e.1) {
        g.edges.push((0, 1, 1));
        g.edges.sort_by_key(|e| e.0);
    }
    td_from(c, &g, 4, if c.big { 1_500_000 } else { 7_200_000 }, 0)
}

fn simple_fl(c: &mut Case) -> TdG {
    let cfg = Cfg { min_n: 2, max_n: if c.big { 40 } else { 8 }, parallel: false, loops: false, ..CFG };
    let mut g = graph(c, &cfg);
    if g.edges.is_empty() {
        g.edges.push((0, 1, 1));
    }
    let t = td_fl(c, &g, 4, if c.big { 1_500_000 } else { 7_200_000 }, 1);
    t
}

fn varied(tdg: &TdG) -> bool {
    tdg.edges.iter().any(|e| e.2.iter().any(|p| p.1 != e.2[0].1))
}

macro_rules! run_plain {
    ($srv:expr, $q:expr) => {{
        let mut r = $srv.td_query($q);
        let d = r.distance();
        (d, if d.is_some() { r.node_path() } else { None })
    }};
}

/// Plain A* with potentials which do not depend on the time.
fn plain(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let cfg = c.draw(2);
    let lb = match cfg {
        0 => tdg.with(|_, _| 0),
        1 => tdg.with(|_, r| r.iter().map(|p| p.1).min().unwrap() / 2),
        _ => tdg.lower(),
    };
    c.note(|| format!("{} static lower bounds {:?}", tdg.desc(), lb.weights()));
    let ev = |e: usize, t: u64| Some(eval(&tdg.edges[e].2, t));
    let net = Net { tdg: &tdg, eval: &ev, slack: 0, from: 0, varied: varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    if c.chance(1, 4) {
        c.note(|| "no potential".to_string());
        let mut srv = DijkServer::<_, TDDijkstraOps>::new(tdg.td());
        for _ in 0..q {
            net.query(c, "TD Dijkstra", &mut |q| run_plain!(srv, q))?;
        }
        return Ok(());
    }
    with_pots(c, &lb, &mut |c, pot, _| {
        let srv = DijkServer::<_, TDDijkstraOps, _>::with_potential(tdg.td(), pot);
        let catch = c.coin();
        let graph = tdg.td();
        if catch {
            let mut srv = CatchDisconnectedTarget::new(srv, &graph);
            for _ in 0..q {
                net.query(c, "TD A* behind the reachability check", &mut |q| run_plain!(srv, q))?;
            }
        } else {
            let mut srv = srv;
            for _ in 0..q {
                net.query(c, "TD A*", &mut |q| run_plain!(srv, q))?;
            }
        }
        Ok(())
    })
}

macro_rules! topo_go {
    ($graph:ty, $ops:ty, $c:expr, $g:expr, $pot:expr, $net:expr, $q:expr) => {{
        let (c, g, pot, net, q): (&mut Case, &$graph, TdPot, &Net, usize) = ($c, $g, $pot, $net, $q);
        macro_rules! go {
            ($b:literal, $d2:literal, $d3:literal) => {{
                let what = concat!("TD topo server bcc=", $b, " deg2=", $d2, " deg3=", $d3);
                let mut srv = TopoServer::<$graph, $ops, TdPot, $b, $d2, $d3>::new_custom(g, pot, <$ops>::default());
                for _ in 0..q {
                    net.query(c, what, &mut |q| run_plain!(srv, q))?;
                }
                Ok(())
            }};
        }
        match c.draw(6) {
            0 => go!(true, true, true),
            1 => go!(false, false, false),
            2 => go!(false, true, false),
            3 => go!(false, true, true),
            4 => go!(true, false, false),
            5 => go!(true, true, false),
            _ => go!(true, true, true),
        }
    }};
}

pub fn time_ranges(c: &mut Case) -> Vec<TRange<Timestamp>> {
    match c.weighted(&[1, 2, 9]) {
        0 => ranges(),
        1 => Vec::new(),
        _ => (0..c.size(1, 5))
            .map(|_| {
                let unit = *c.pick(&[3_600_000u32, 600_000, 1]);
                let a = unit * c.u32(0, P / unit - 1);
                let b = a + unit * c.u32(1, ((P - a) / unit).min(30));
                TRange { start: a, end: b }
            })
            .collect(),
    }
}

fn multi_metric<'a>(c: &mut Case, cch: &'a CCH, graph: &TDGraph, live: Option<(&PessimisticLiveTDGraph, Timestamp)>) -> MultiMetric<'a> {
    let times = time_ranges(c);
    let all = times.len() + 1;
    let reduce = if c.chance(1, 3) { Some(c.size(1, all.min(6))) } else { None };
    c.note(|| format!("multi metric, times {:?}, reduced to {:?}", times, reduce));
    let mut mmp = MultiMetricPreprocessed::new(cch, times, graph, reduce);
    if let Some((live, t_live)) = live {
        if c.chance(2, 3) {
            c.note(|| "with live metric".to_string());
            if c.coin() {
                mmp.reserve_space_for_additional_metrics(1);
            }
            mmp.customize_live(live, t_live);
        } else {
            c.note(|| "with live upper bounds".to_string());
            mmp.customize_simple_live(live, t_live);
        }
    }
    MultiMetric::new(mmp)
}

fn recycling<'a, T: TDPotential + 'a>(c: &mut Case, pot: T) -> TdPot<'a> {
    if c.chance(1, 3) {
        c.note(|| "recycling".to_string());
        TdPot(Box::new(TDRecyclingPotential::new(pot)))
    } else {
        TdPot(Box::new(pot))
    }
}

fn topo(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let graph = tdg.td();
    let lower = tdg.lower();
    c.note(|| tdg.desc());
    let ev = |e: usize, t: u64| Some(eval(&tdg.edges[e].2, t));
    let net = Net { tdg: &tdg, eval: &ev, slack: 0, from: 0, varied: varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    let ord = order(c, &lower);
    c.note(|| format!("order {:?}", ord.order()));
    let cch = CCH::fix_order_and_build(&graph, ord);
    let data;
    let pot = match c.weighted(&[1, 2, 6]) {
        0 => TdPot(Box::new(Pot(Box::new(a_star::ZeroPotential())))),
        1 => {
            c.note(|| "CCH lower bounds".to_string());
            data = CCHPotData::new(&cch, &lower.owned());
            let p = data.forward_potential();
            recycling(c, p)
        }
        _ => {
            let p = multi_metric(c, &cch, &graph, None);
            recycling(c, p)
        }
    };
    topo_go!(TDGraph, TDDijkstraOps, c, &graph, pot, &net, q)
}

fn floating(tdg: &TdG) -> floating_time_dependent::TDGraph {
    let (f, d, t) = tdg.ipps();
    floating_time_dependent::TDGraph::new(tdg.first_out(), tdg.head(), f, d, t)
}

fn pot_data(c: &mut Case, cch: &CCH, tdg: &TdG) -> ftd_for_pot::PotData {
    let k = *c.pick(&[96, 24, 288]);
    c.note(|| format!("interval minimum with {} buckets", k));
    let fl = floating(tdg);
    match k {
        24 => ftd_for_pot::customize::<24>(cch, &fl),
        96 => ftd_for_pot::customize::<96>(cch, &fl),
        _ => ftd_for_pot::customize::<288>(cch, &fl),
    }
}

fn interval(c: &mut Case) -> Result<(), String> {
    let tdg = simple_fl(c);
    let graph = tdg.td();
    c.note(|| tdg.desc());
    let ev = |e: usize, t: u64| Some(eval(&tdg.edges[e].2, t));
    let net = Net { tdg: &tdg, eval: &ev, slack: tdg.n as u64, from: 0, varied: varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    let ord = order(c, &tdg.lower());
    c.note(|| format!("order {:?}", ord.order()));
    let cch = CCH::fix_order_and_build(&graph, ord);
    let data = pot_data(c, &cch, &tdg);
    let p = IntervalMinPotential::new(&cch, data);
    let pot = recycling(c, p);
    topo_go!(TDGraph, TDDijkstraOps, c, &graph, pot, &net, q)
}

pub fn live_time(c: &mut Case) -> u32 {
    match c.draw(2) {
        0 => 3_600_000 * c.u32(0, 23),
        1 => P - 1 - c.u32(0, 7_200_000),
        _ => c.u32(0, P - 1),
    }
}

pub fn live_value(c: &mut Case, raw: &Raw, t: u32) -> u32 {
    match c.draw(3) {
        0 => c.u32(0, 10_000),
        1 => c.u32(0, 4_000_000),
        2 => eval(raw, t as u64) as u32,
        _ => eval(raw, t as u64) as u32 + c.u32(0, 1_000_000),
    }
}

/// Live reports valid until a common point in time.
fn live(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let now = live_time(c);
    let soon = now + *c.pick(&[3_600_000u32, 600_000, 1, 7_200_000]);
    let values: Vec<Option<u32>> = tdg.edges.iter().map(|e| if c.coin() { Some(live_value(c, &e.2, now)) } else { None }).collect();
    c.note(|| format!("{} live from {} until {}: {:?}", tdg.desc(), now, soon, values));
    let graph = LiveTDGraph::new(tdg.td(), soon, values.iter().map(|v| InRangeOption::new(*v)).collect());
    let lb = tdg.with(|i, r| r.iter().map(|p| p.1).min().unwrap().min(values[i].unwrap_or(u32::MAX)));
    let ev = |e: usize, t: u64| {
        let raw = &tdg.edges[e].2;
        let pred = eval(raw, t);
        Some(match values[e] {
            None => pred,
            Some(v) if t < soon as u64 => v as u64,
            Some(v) if eval(raw, soon as u64) < v as u64 => pred.max((v as u64 + soon as u64).saturating_sub(t)),
            Some(v) => pred.min(v as u64 + t - soon as u64),
        })
    };
    let some = values.iter().any(|v| v.is_some());
    let net = Net { tdg: &tdg, eval: &ev, slack: 0, from: now, varied: some || varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    if c.coin() {
        return with_pots(c, &lb, &mut |c, pot, _| {
            let mut srv = DijkServer::<_, LiveTDDijkstraOps, _>::with_potential(graph.clone(), pot);
            for _ in 0..q {
                net.query(c, "live TD A*", &mut |q| run_plain!(srv, q))?;
            }
            Ok(())
        });
    }
    let ord = order(c, &lb);
    c.note(|| format!("order {:?}", ord.order()));
    let cch = CCH::fix_order_and_build(graph.graph(), ord);
    let data = CCHPotData::new(&cch, &lb.owned());
    let p = data.forward_potential();
    let pot = recycling(c, p);
    topo_go!(LiveTDGraph, LiveTDDijkstraOps, c, &graph, pot, &net, q)
}

pub type Reports = Vec<Option<(u32, u32)>>;

pub fn reports(c: &mut Case, tdg: &TdG, now: u32) -> Reports {
    let density = c.u32(1, 3);
    tdg.edges
        .iter()
        .map(|e| {
            if c.u32(0, 3) < density {
                let until = now + *c.pick(&[3_600_000u32, 600_000, 60_000, 1]) * c.u32(0, 3);
                let v = live_value(c, &e.2, now);
                let v = if c.chance(1, 10) { INFINITY } else { v };
                Some((v, until))
            } else {
                None
            }
        })
        .collect()
}

pub fn pess_eval(raw: &Raw, report: Option<(u32, u32)>, t: u64) -> u64 {
    let pred = eval(raw, t);
    match report {
        Some((v, until)) if t < until as u64 => pred.max((v as u64).min(eval(raw, until as u64) + until as u64 - t)),
        _ => pred,
    }
}

pub fn pess_graph(tdg: &TdG, reports: &Reports) -> PessimisticLiveTDGraph {
    PessimisticLiveTDGraph::new(tdg.td(), reports.iter().map(|r| InRangeOption::new(*r)).collect())
}

/// Live reports each with its own end.
fn pessimistic(c: &mut Case) -> Result<(), String> {
    let tdg = tdg(c);
    let now = live_time(c).min(P - 1 - 18_000_000);
    let reports = reports(c, &tdg, now);
    c.note(|| format!("{} live from {}: {:?}", tdg.desc(), now, reports));
    let graph = pess_graph(&tdg, &reports);
    let lower = tdg.lower();
    let ev = |e: usize, t: u64| Some(pess_eval(&tdg.edges[e].2, reports[e], t));
    let some = reports.iter().any(|v| v.is_some());
    let net = Net { tdg: &tdg, eval: &ev, slack: 0, from: now, varied: some || varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    if c.chance(1, 4) {
        return with_pots(c, &lower, &mut |c, pot, _| {
            let mut srv = DijkServer::<_, PessimisticLiveTDDijkstraOps, _>::with_potential(graph.clone(), pot);
            for _ in 0..q {
                net.query(c, "pessimistic live TD A*", &mut |q| run_plain!(srv, q))?;
            }
            Ok(())
        });
    }
    let ord = order(c, &lower);
    c.note(|| format!("order {:?}", ord.order()));
    let cch = CCH::fix_order_and_build(graph.graph(), ord);
    let data;
    let pot = if c.chance(1, 4) {
        c.note(|| "CCH lower bounds".to_string());
        data = CCHPotData::new(&cch, &lower.owned());
        let p = data.forward_potential();
        recycling(c, p)
    } else {
        let p = multi_metric(c, &cch, graph.graph(), Some((&graph, now)));
        recycling(c, p)
    };
    topo_go!(PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, c, &graph, pot, &net, q)
}

fn interval_live(c: &mut Case) -> Result<(), String> {
    let tdg = simple_fl(c);
    let now = live_time(c).min(P - 1 - 18_000_000);
    let reports = reports(c, &tdg, now);
    c.note(|| format!("{} live from {}: {:?}", tdg.desc(), now, reports));
    let graph = pess_graph(&tdg, &reports);
    let ev = |e: usize, t: u64| Some(pess_eval(&tdg.edges[e].2, reports[e], t));
    let some = reports.iter().any(|v| v.is_some());
    let net = Net { tdg: &tdg, eval: &ev, slack: tdg.n as u64, from: now, varied: some || varied(&tdg), last: Cell::new(None) };
    let q = c.size(1, 8);
    let ord = order(c, &tdg.lower());
    c.note(|| format!("order {:?}", ord.order()));
    let cch = CCH::fix_order_and_build(graph.graph(), ord);
    let data = pot_data(c, &cch, &tdg);
    let pot = if c.coin() {
        c.note(|| "simple live".to_string());
        let p = IntervalMinPotential::new_for_simple_live(&cch, data, &graph, now);
        recycling(c, p)
    } else {
        let p = IntervalMinPotential::new_for_live(&cch, data, &graph, now);
        recycling(c, p)
    };
    topo_go!(PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, c, &graph, pot, &net, q)
}
