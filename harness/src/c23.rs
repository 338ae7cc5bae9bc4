//! Import of HERE tables, link id mapping and speed profiles.

use crate::c17::Scratch;
use crate::pbt::{Sub, *};
use conversion::here::csv_source::CSVSource;
use conversion::here::link_id_mapper::*;
use conversion::here::read_graph;
use conversion::speed_profile_to_tt_profile;
use rust_road_router::datastr::graph::time_dependent::period;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::util::in_range_option::InRangeOption;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Property = Property {
    id: "C23",
    rule: "at least one link is left out or only permitted in one direction / the mapping has one and two way links / travel crosses a change of the speed",
    subs: &[
        Sub { name: "import", f: import, quick: 30_000, thorough: 900_000, big: false },
        Sub { name: "import_big", f: import, quick: 5_000, thorough: 100_000, big: true },
        Sub { name: "mapper", f: mapper, quick: 300_000, thorough: 10_000_000, big: false },
        Sub { name: "speeds", f: speeds, quick: 2_000_000, thorough: 40_000_000, big: false },
        Sub { name: "speeds_big", f: speeds, quick: 100_000, thorough: 3_000_000, big: true },
    ],
};

#[derive(Debug, Clone)]
struct Node {
    id: i64,
    lat: i64,
    lon: i64,
    z: Option<i64>,
}

#[derive(Debug, Clone)]
struct Link {
    id: i64,
    from: usize,
    to: usize,
    /// functional class, direction, speed category, limits
    nav: Option<(u8, char, i32, Option<i32>, Option<i32>)>,
    /// lat, lon, z
    geometry: Vec<(i64, i64, Option<i64>)>,
}

pub fn distance(a: (f64, f64, f64), b: (f64, f64, f64)) -> f64 {
    let r = std::f64::consts::PI / 180.0;
    let h = ((b.0 - a.0) * r / 2.0).sin().powi(2) + (a.0 * r).cos() * (b.0 * r).cos() * ((b.1 - a.1) * r / 2.0).sin().powi(2);
    2.0 * 6_378_137.0 * h.sqrt().asin() + (a.2 - b.2).abs()
}

fn opt(x: Option<impl ToString>) -> String {
    x.map_or(String::new(), |x| x.to_string())
}

/// Spread the lines over one or two files.
fn write(c: &mut Case, dir: &Scratch, name: &str, mut lines: Vec<String>) {
    std::fs::create_dir(dir.path(name)).unwrap();
    // the order of the lines does not matter
    if c.coin() {
        let p = c.permutation(lines.len());
        lines = p.iter().map(|&i| lines[i as usize].clone()).collect();
    }
    let cut = if c.chance(1, 3) { c.size(0, lines.len()) } else { lines.len() };
    for (i, part) in [&lines[..cut], &lines[cut..]].iter().enumerate() {
        let mut text = part.join("\n");
        if !part.is_empty() {
            text.push('\n');
        }
        if i == 0 || !part.is_empty() {
            let suffix = if cut == lines.len() { String::new() } else { format!(".{}", i) };
            std::fs::write(dir.path(&format!("{}/{}.txt{}", name, name, suffix)), text).unwrap();
        }
    }
}

/// Tables of a map and a box.
pub struct Map {
    nodes: Vec<Node>,
    links: Vec<Link>,
    pub lat: (i64, i64),
    pub lon: (i64, i64),
    max_id: u64,
    pub dir: Scratch,
}

impl Map {
    /// The links which belong to the graph.
    fn kept(&self) -> Vec<&Link> {
        let inside = |n: &Node| n.lat >= self.lat.0 && n.lat <= self.lat.1 && n.lon >= self.lon.0 && n.lon <= self.lon.1;
        self.links.iter().filter(|l| l.nav.is_some() && inside(&self.nodes[l.from]) && inside(&self.nodes[l.to])).collect()
    }
}

/// A random map with at least one link in the box (an empty box is not supported).
pub fn map(c: &mut Case) -> Option<Map> {
    let ids = |c: &mut Case, k: usize, max: u64| -> Vec<i64> {
        let mut s = BTreeSet::new();
        for _ in 0..k {
            let id = c.range(0, max);
            s.insert(id as i64);
        }
        s.into_iter().collect()
    };
    let max_id = *c.pick(&[20u64, 600, 5000]);
    let num = c.size(1, if c.big { 80 } else { 12 });
    let node_ids = ids(c, num, max_id);
    let (base_lat, base_lon) = (c.range(0, 160) as i64 * 100_000 - 8_000_000, c.range(0, 340) as i64 * 100_000 - 17_000_000);
    let spread = *c.pick(&[5u64, 3000, 90_000]);
    let z = |c: &mut Case| if c.chance(1, 3) { Some(c.range(0, 50_000) as i64 - 10_000) } else { None };
    let nodes: Vec<Node> = node_ids
        .iter()
        .map(|&id| Node { id, lat: base_lat + c.range(0, spread) as i64, lon: base_lon + c.range(0, spread) as i64, z: z(c) })
        .collect();
    let num = c.size(1, if c.big { 150 } else { 14 });
    let link_ids = ids(c, num, max_id);
    let links: Vec<Link> = link_ids
        .iter()
        .map(|&id| {
            let (from, to) = (c.size(0, nodes.len() - 1), c.size(0, nodes.len() - 1));
            let limit = |c: &mut Case| if c.coin() { Some(c.range(1, 140) as i32) } else { None };
            let nav = if c.chance(5, 6) {
                Some((c.range(1, 5) as u8, *c.pick(&['B', 'F', 'T']), c.range(1, 8) as i32, limit(c), limit(c)))
            } else {
                None
            };
            let geometry = if c.coin() {
                let k = c.size(2, 5);
                (0..k)
                    .map(|_| (base_lat * 100 + c.range(0, spread * 100) as i64, base_lon * 100 + c.range(0, spread * 100) as i64, z(c)))
                    .collect()
            } else {
                Vec::new()
            };
            Link { id, from, to, nav, geometry }
        })
        .collect();
    let bounds = |c: &mut Case, base: i64| -> (i64, i64) {
        if c.coin() {
            (-36_000_000, 36_000_000)
        } else {
            let a = base + c.range(0, spread) as i64;
            let b = base + c.range(0, spread) as i64;
            (a.min(b), a.max(b))
        }
    };
    let lat = bounds(c, base_lat);
    let lon = bounds(c, base_lon);
    c.note(|| format!("nodes={:?} links={:?} lat in {:?} lon in {:?}", nodes, links, lat, lon));

    let m = Map { nodes, links, lat, lon, max_id, dir: Scratch::new() };
    if m.kept().is_empty() {
        return None;
    }
    let Map { nodes, links, dir, .. } = &m;
    let lines = nodes.iter().map(|n| format!("{}\t{}\t{}\t{}\tx", n.id, n.lat, n.lon, opt(n.z))).collect();
    write(c, dir, "rdf_node", lines);
    let lines = links.iter().map(|l| format!("{}\t{}\t{}\t\"x", l.id, nodes[l.from].id, nodes[l.to].id)).collect();
    write(c, dir, "rdf_link", lines);
    let lines = links
        .iter()
        .filter_map(|l| {
            l.nav.map(|nav| {
                let mut cols = vec![String::from("-"); 30];
                cols[0] = l.id.to_string();
                cols[4] = nav.0.to_string();
                cols[6] = nav.1.to_string();
                cols[19] = nav.2.to_string();
                cols[25] = opt(nav.3);
                cols[26] = opt(nav.4);
                cols.join("\t")
            })
        })
        .collect();
    write(c, dir, "rdf_nav_link", lines);
    let lines = links
        .iter()
        .flat_map(|l| l.geometry.iter().enumerate().map(move |(i, g)| format!("{}\t{}\t{}\t{}\t{}\t", l.id, i * 3, g.0, g.1, opt(g.2))))
        .collect();
    write(c, dir, "adas_link_geometry", lines);
    Some(m)
}

fn import(c: &mut Case) -> Result<(), String> {
    let map = match map(c) {
        Some(m) => m,
        None => return Ok(()),
    };
    let kept = map.kept();
    let Map { nodes, links, lat, lon, max_id, dir } = &map;
    let data = read_graph(&CSVSource::new(&dir.0), (lat.0, lon.0), (lat.1, lon.1));

    let used: BTreeSet<i64> = kept.iter().flat_map(|l| [nodes[l.from].id, nodes[l.to].id]).collect();
    let local: BTreeMap<i64, u32> = used.iter().enumerate().map(|(i, &id)| (id, i as u32)).collect();
    let n = used.len();
    ensure_eq!(data.graph.num_nodes(), n, "number of nodes");
    let by_id: BTreeMap<i64, &Node> = nodes.iter().map(|n| (n.id, n)).collect();
    ensure_eq!(data.lat, used.iter().map(|id| (by_id[id].lat as f64 / 100_000.0) as f32).collect::<Vec<_>>(), "latitudes");
    ensure_eq!(data.lng, used.iter().map(|id| (by_id[id].lon as f64 / 100_000.0) as f32).collect::<Vec<_>>(), "longitudes");
    let m = data.graph.num_arcs();
    let expected: usize = kept.iter().map(|l| if l.nav.unwrap().1 == 'B' { 2 } else { 1 }).sum();
    ensure_eq!(m, expected, "number of arcs");
    if kept.len() < links.len() || expected < 2 * kept.len() {
        c.nontrivial();
    }
    ensure_eq!((data.link_lengths.len(), data.functional_road_classes.len()), (m, m), "length of arc data");
    let graph = data.graph;
    let first_out = graph.first_out().to_vec();
    ensure!(first_out.len() == n + 1 && first_out[0] == 0 && first_out[n] as usize == m && first_out.windows(2).all(|w| w[0] <= w[1]), "first_out {:?}", first_out);
    let mut tail = vec![0; m];
    for v in 0..n {
        for e in first_out[v]..first_out[v + 1] {
            tail[e as usize] = v as u32;
        }
    }
    let ids = InvertableRankSelectMap::new(data.link_id_mapping);
    let mapper = LinkIdMapper::new(ids, data.here_rank_to_link_id, m);
    for id in 0..*max_id + 2 {
        let link = kept.iter().find(|l| l.id == id as i64);
        for (dir, forbidden) in [(LinkDirection::FromRef, 'T'), (LinkDirection::ToRef, 'F')] {
            let got = mapper.here_to_local_link_id(id, dir);
            let link = link.filter(|l| l.nav.unwrap().1 != forbidden);
            ensure_eq!(got.is_some(), link.is_some(), "arc for link {} {:?}", id, dir);
            if let (Some(l), Some(e)) = (link, got) {
                let nav = l.nav.unwrap();
                ensure!((e as usize) < m, "arc {} for link {}", e, id);
                ensure_eq!(mapper.local_to_here_link_id(e), (id, dir), "link of arc {}", e);
                let (from, to, limit) = if dir == LinkDirection::FromRef { (l.from, l.to, nav.3) } else { (l.to, l.from, nav.4) };
                let (a, b) = (local[&nodes[from].id], local[&nodes[to].id]);
                ensure_eq!((tail[e as usize], graph.head()[e as usize]), (a, b), "end points of link {} {:?}", id, dir);
                let height = |z: Option<i64>| z.unwrap_or(0) as f64 / 100.0;
                let pos = |n: &Node| (n.lat as f64 / 1e5, n.lon as f64 / 1e5, height(n.z));
                let len: f64 = if l.geometry.is_empty() {
                    distance(pos(&nodes[from]), pos(&nodes[to]))
                } else {
                    let p: Vec<_> = l.geometry.iter().map(|g| (g.0 as f64 / 1e7, g.1 as f64 / 1e7, height(g.2))).collect();
                    p.windows(2).map(|w| distance(w[0], w[1])).sum()
                };
                ensure!((data.link_lengths[e as usize] - len).abs() <= 1e-6 * (1.0 + len), "length of link {}: {} instead of {}", id, data.link_lengths[e as usize], len);
                let category: f64 = [130.0, 115.0, 95.0, 80.0, 60.0, 40.0, 20.0, 5.0][nav.2 as usize - 1];
                let speed = limit.map_or(category, |l| category.min(l as f64)) / 3.6;
                let tt = 1000.0 * len / speed;
                // the speed categories are given with four digits
                let got = graph.weight()[e as usize] as f64;
                ensure!((got - tt).abs() <= 1.0 + 0.01 * tt, "travel time of link {} {:?}: {} instead of {}", id, dir, got, tt);
                ensure_eq!(data.functional_road_classes[e as usize], nav.0, "class of link {}", id);
            }
        }
    }
    Ok(())
}

fn mapper(c: &mut Case) -> Result<(), String> {
    let max = *c.pick(&[8u64, 70, 600, 3000]);
    let mut links: BTreeMap<u64, (Option<u32>, Option<u32>)> = BTreeMap::new();
    let mut kinds = [0; 4];
    for _ in 0..c.size(1, 40) {
        let kind = c.draw(3) as usize;
        kinds[kind] += 1;
        links.insert(c.range(0, max), if kind == 3 { (None, None) } else { (if kind != 1 { Some(0) } else { None }, if kind != 2 { Some(0) } else { None }) });
    }
    if kinds[0] > 0 && kinds[1] + kinds[2] > 0 {
        c.nontrivial();
    }
    let m = links.values().map(|l| l.0.is_some() as usize + l.1.is_some() as usize).sum();
    let mut arcs = c.permutation(m).into_iter();
    for l in links.values_mut() {
        l.0 = l.0.map(|_| arcs.next().unwrap());
        l.1 = l.1.map(|_| arcs.next().unwrap());
    }
    c.note(|| format!("links {:?}", links));
    let mut bits = BitVec::new(*links.keys().last().unwrap() as usize + 1 + c.size(0, 100));
    for &id in links.keys() {
        bits.set(id as usize);
    }
    let ranks = links.values().map(|l| (InRangeOption::new(l.0), InRangeOption::new(l.1))).collect();
    let mapper = LinkIdMapper::new(InvertableRankSelectMap::new(RankSelectMap::new(bits)), ranks, m);
    for id in (0..max + 200).chain([1 << 20, 1 << 40, u64::MAX]) {
        let want = links.get(&id).cloned().unwrap_or((None, None));
        let got = (mapper.here_to_local_link_id(id, LinkDirection::FromRef), mapper.here_to_local_link_id(id, LinkDirection::ToRef));
        ensure_eq!(got, want, "arcs of link {}", id);
        if let Some(e) = want.0 {
            ensure_eq!(mapper.local_to_here_link_id(e), (id, LinkDirection::FromRef), "link of arc {}", e);
        }
        if let Some(e) = want.1 {
            ensure_eq!(mapper.local_to_here_link_id(e), (id, LinkDirection::ToRef), "link of arc {}", e);
        }
    }
    Ok(())
}

/// Travel time when starting at the given time and the number of changes of the speed on the way.
pub fn drive(speeds: &[(u32, u32)], start: f64, len: f64) -> (f64, usize) {
    let p = period() as f64;
    let day = (start / p).floor();
    let t = start - day * p;
    let mut i = speeds.iter().rposition(|s| s.0 as f64 <= t).unwrap();
    if i + 1 == speeds.len() {
        i = 0;
    }
    let (mut at, mut left, mut changes) = (t, len, 0);
    let mut offset = 0.0;
    loop {
        let end = speeds[i + 1].0 as f64 + offset;
        let v = speeds[i].1 as f64 / 3600.0;
        if at + left / v <= end {
            return (at + left / v - t, changes);
        }
        left -= (end - at) * v;
        at = end;
        changes += 1;
        i += 1;
        if i + 1 == speeds.len() {
            i = 0;
            offset += p;
        }
    }
}

fn speeds(c: &mut Case) -> Result<(), String> {
    let slots = if c.big { 288 } else { *c.pick(&[24u32, 96, 288]) };
    let slot = period() / slots;
    let max = *c.pick(&[10u64, 60, 130]);
    let mut speeds: Vec<(u32, u32)> = vec![(0, c.range(5, max) as u32)];
    for i in 1..slots {
        let change = if c.big { c.chance(3, 4) } else { c.chance(1, 12) };
        if change {
            let v = c.range(5, max) as u32;
            if v != speeds.last().unwrap().1 {
                speeds.push((i * slot, v));
            }
        }
    }
    speeds.push((period(), speeds[0].1));
    let len = match c.draw(3) {
        0 => c.u32(1, 300),
        1 => c.u32(300, 5000),
        2 => c.u32(5000, 40_000),
        _ => c.u32(1, 30_000),
    };
    c.note(|| format!("length {} speeds {:?}", len, speeds));
    let profile = speed_profile_to_tt_profile(&speeds, len);
    c.note(|| format!("profile {:?}", profile));
    ensure!(profile.len() >= 2 && profile[0].0 == 0 && profile[profile.len() - 1].0 == period(), "profile does not cover the day: {:?}", profile);
    ensure_eq!(profile[0].1, profile[profile.len() - 1].1, "travel time at the beginning and the end of the day");
    for w in profile.windows(2) {
        ensure!(w[0].0 < w[1].0, "points are not sorted: {:?}", w);
        ensure!(w[0].0 + w[0].1 <= w[1].0 + w[1].1, "not FIFO: {:?}", w);
    }
    let slowest = speeds.iter().map(|s| s.1).min().unwrap() as f64;
    for _ in 0..20 {
        let t = if c.coin() { c.u32(0, period() - 1) } else { profile[c.size(0, profile.len() - 2)].0 };
        let i = profile.iter().rposition(|p| p.0 <= t).unwrap();
        let (a, b) = (profile[i], profile[i + 1]);
        let got = a.1 as f64 + (b.1 as f64 - a.1 as f64) * (t - a.0) as f64 / (b.0 - a.0) as f64;
        let (want, changes) = drive(&speeds, t as f64, len as f64);
        if changes > 0 {
            c.nontrivial();
        }
        // rounded to meters in each interval
        let tol = (changes as f64 + 2.0) * (3600.0 / slowest + 2.0) * 1.0;
        ensure!((got - want).abs() <= tol * 0.6, "travel time at {}: {} instead of {}", t, got, want);
    }
    Ok(())
}
