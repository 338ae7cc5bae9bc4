//! The HTTP server: real server processes are driven over the loopback network.

use crate::c17::Scratch;
use crate::gen::*;
use crate::pbt::{Sub, *};
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::Store;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU16, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static PROP: Property = Property {
    id: "C22",
    rule: "the history contains a query for which the metric matters after a customization, or an invalid request followed by a valid query",
    subs: &[
        Sub { name: "history", f: history, quick: 3_000, thorough: 150_000, big: false },
        Sub { name: "history_big", f: history, quick: 600, thorough: 40_000, big: true },
    ],
};

const LIMIT: Duration = Duration::from_secs(15);

static NEXT_PORT: AtomicU16 = AtomicU16::new(0);
static TOKEN: AtomicU64 = AtomicU64::new(0);

/// One running server, killed at the end of the case.
struct Server {
    child: Child,
    port: u16,
    #[allow(dead_code)]
    dir: Option<Scratch>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn binary() -> std::path::PathBuf {
    match std::env::var("RRR_SERVER") {
        Ok(p) => p.into(),
        Err(_) => std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("target-server/debug/server"),
    }
}

impl Server {
    fn start(dir: Scratch) -> Result<Self, String> {
        let token = format!("{}-{}", std::process::id(), TOKEN.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir(dir.path("static")).unwrap();
        std::fs::write(dir.path("static/token"), &token).unwrap();
        std::fs::write(dir.path("secret"), "secret").unwrap();
        let start = Instant::now();
        loop {
            // below the range of ports which the system hands out itself
            let port = 12000 + (std::process::id() as u16 % 50) * 300 + NEXT_PORT.fetch_add(1, Ordering::Relaxed) % 300;
            if std::net::TcpListener::bind(("127.0.0.1", port)).is_err() {
                continue;
            }
            let mut cmd = Command::new(binary());
            cmd.arg(&dir.0)
                .current_dir(&dir.0)
                .env("ROCKET_ENV", "production")
                .env("ROCKET_ADDRESS", "127.0.0.1")
                .env("ROCKET_PORT", port.to_string())
                .env("ROCKET_WORKERS", "6")
                .env("ROCKET_LOG", "off")
                .env("ROCKET_SECRET_KEY", "hPRYyVRiMyxpw5sBB1XeCMN1kFsDCqKvBi2QJxBVHQk=")
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(dir.path("stderr")).unwrap());
            unsafe {
                cmd.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let child = cmd.spawn().expect("server binary is missing");
            let mut server = Server { child, port, dir: None };
            let up = loop {
                if server.child.try_wait().unwrap().is_some() {
                    break false;
                }
                if let Ok((200, body)) = server.http(b"GET /token HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n") {
                    break body == token.as_bytes();
                }
                if start.elapsed() > 2 * LIMIT {
                    return Err("the server does not start".into());
                }
                std::thread::sleep(Duration::from_millis(3));
            };
            if up {
                server.dir = Some(dir);
                return Ok(server);
            }
            if start.elapsed() > 2 * LIMIT {
                let msg = std::fs::read_to_string(dir.path("stderr")).unwrap_or_default();
                return Err(format!("the server ends right after its start: {}", msg));
            }
        }
    }

    fn http(&self, request: &[u8]) -> Result<(u16, Vec<u8>), String> {
        let addr = std::net::SocketAddr::from(([127, 0, 0, 1], self.port));
        let mut s = TcpStream::connect_timeout(&addr, LIMIT).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_read_timeout(Some(LIMIT)).unwrap();
        s.set_write_timeout(Some(LIMIT)).unwrap();
        // the server may refuse to read everything
        let _ = s.write_all(request);
        let mut res = Vec::new();
        let mut buf = [0; 4096];
        loop {
            match s.read(&mut buf) {
                Ok(0) => break,
                Ok(k) => res.extend_from_slice(&buf[..k]),
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset && !res.is_empty() => break,
                Err(e) => return Err(format!("no response: {}", e)),
            }
        }
        let end = res.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no valid HTTP response: {:?}", String::from_utf8_lossy(&res)))?;
        let header = String::from_utf8_lossy(&res[..end]).into_owned();
        let status = header.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("no HTTP status: {}", header))?;
        let mut body = res[end + 4..].to_vec();
        if header.to_ascii_lowercase().contains("transfer-encoding: chunked") {
            body = dechunk(&body).ok_or("truncated response")?;
        }
        Ok((status, body))
    }

    fn get(&self, path: &str) -> Result<(u16, Vec<u8>), String> {
        self.http(format!("GET {} HTTP/1.1\r\nHost: x\r\nAccept: application/json\r\nConnection: close\r\n\r\n", path).as_bytes())
            .map_err(|e| format!("GET {}: {}", path, e))
    }

    fn post(&self, body: &str) -> Result<(u16, Vec<u8>), String> {
        let r = format!(
            "POST /customize HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}",
            body.len(),
            body
        );
        self.http(r.as_bytes()).map_err(|e| format!("POST {}: {}", body, e))
    }
}

fn dechunk(mut b: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    loop {
        let end = b.windows(2).position(|w| w == b"\r\n")?;
        let len = usize::from_str_radix(std::str::from_utf8(&b[..end]).ok()?.trim(), 16).ok()?;
        b = &b[end + 2..];
        if len == 0 {
            return Some(out);
        }
        out.extend_from_slice(b.get(..len)?);
        b = b.get(len + 2..)?;
    }
}

/// Everything the server was told.
struct Model {
    n: usize,
    /// tail, head
    arcs: Vec<(u32, u32)>,
    coords: Vec<(f32, f32)>,
    /// (link id, true = from the reference node) -> arc
    links: BTreeMap<(u64, bool), usize>,
    base: Vec<u32>,
    /// metrics after each customization
    metrics: Vec<Vec<u32>>,
    dists: Vec<Vec<Vec<u64>>>,
}

impl Model {
    fn push(&mut self, metric: Vec<u32>) {
        let g = G {
            n: self.n,
            edges: (0..self.arcs.len()).filter(|&e| metric[e] < INFINITY_W).map(|e| (self.arcs[e].0, self.arcs[e].1, metric[e])).collect(),
        };
        self.dists.push(g.all_dists());
        self.metrics.push(metric);
    }

    fn nearest(&self, p: (f32, f32)) -> Vec<u32> {
        let d = |v: usize| {
            let (dx, dy) = (self.coords[v].0 as f64 - p.0 as f64, self.coords[v].1 as f64 - p.1 as f64);
            dx * dx + dy * dy
        };
        let best = (0..self.n).map(d).fold(f64::INFINITY, f64::min);
        (0..self.n).filter(|&v| d(v) == best).map(|v| v as u32).collect()
    }

    /// Shortest way along nodes with the given coordinates.
    fn along(&self, version: usize, s: u32, t: u32, path: &[(f32, f32)]) -> u64 {
        let mut cur: BTreeMap<u32, u64> = BTreeMap::new();
        if path.is_empty() || self.coords[s as usize] != path[0] {
            return INF;
        }
        cur.insert(s, 0);
        for p in &path[1..] {
            let mut next = BTreeMap::new();
            for (e, &(a, b)) in self.arcs.iter().enumerate() {
                if let (Some(&d), true, true) = (cur.get(&a), self.coords[b as usize] == *p, self.metrics[version][e] < INFINITY_W) {
                    let d = d + self.metrics[version][e] as u64;
                    next.entry(b).and_modify(|x: &mut u64| *x = (*x).min(d)).or_insert(d);
                }
            }
            cur = next;
        }
        cur.get(&t).cloned().unwrap_or(INF)
    }
}

const INFINITY_W: u32 = rust_road_router::datastr::graph::INFINITY;

#[derive(Clone, Debug)]
enum Query {
    Geo((f32, f32), (f32, f32)),
    Here((u64, bool, f32), (u64, bool, f32)),
}

impl Query {
    fn path(&self) -> String {
        match self {
            Query::Geo(a, b) => format!("/query?from_lat={}&from_lng={}&to_lat={}&to_lng={}", a.0, a.1, b.0, b.1),
            Query::Here(a, b) => format!(
                "/here_query?from_link_id={}&from_direction={}&from_link_fraction={}&to_link_id={}&to_direction={}&to_link_fraction={}",
                a.0, a.1, a.2, b.0, b.1, b.2
            ),
        }
    }

    /// Is the response right under the given metric?
    fn check(&self, m: &Model, version: usize, res: &Value) -> Result<(), String> {
        let d = &m.dists[version];
        match self {
            Query::Geo(a, b) => {
                let pairs: Vec<(u32, u32)> = m.nearest(*a).iter().flat_map(|&s| m.nearest(*b).into_iter().map(move |t| (s, t))).collect();
                if res.is_null() {
                    ensure!(pairs.iter().any(|&(s, t)| d[s as usize][t as usize] >= INF), "there is a route between the nearest nodes {:?}", pairs);
                    return Ok(());
                }
                let dist = res["distance"].as_u64().ok_or("no distance")?;
                let path: Vec<(f32, f32)> = res["path"]
                    .as_array()
                    .ok_or("no path")?
                    .iter()
                    .map(|p| (p[0].as_f64().unwrap_or(f64::NAN) as f32, p[1].as_f64().unwrap_or(f64::NAN) as f32))
                    .collect();
                let ok = pairs.iter().any(|&(s, t)| d[s as usize][t as usize] == dist && m.along(version, s, t, &path) == dist);
                ensure!(
                    ok,
                    "wrong route, candidates (from, to, distance): {:?}",
                    pairs.iter().map(|&(s, t)| (s, t, d[s as usize][t as usize])).collect::<Vec<_>>()
                );
                Ok(())
            }
            Query::Here(a, b) => {
                let (ea, eb) = (m.links[&(a.0, a.1)], m.links[&(b.0, b.1)]);
                let (s, t) = (m.arcs[ea].1, m.arcs[eb].0);
                let between = d[s as usize][t as usize];
                if res.is_null() {
                    ensure!(between >= INF, "there is a route of length {}", between);
                    return Ok(());
                }
                ensure!(between < INF, "there is no route");
                let dist = res["distance"].as_u64().ok_or("no distance")?;
                let w = &m.metrics[version];
                let part = |e: usize, f: f32| (w[e] as f64 * f as f64) as u64;
                let want = between + part(ea, a.2) + part(eb, b.2);
                ensure!(dist + 2 >= want && dist <= want + 2, "expected a distance of {} (with {} between the links)", want, between);
                let path: Vec<(u64, bool)> = res["path"]
                    .as_array()
                    .ok_or("no path")?
                    .iter()
                    .map(|p| (p[0].as_u64().unwrap_or(u64::MAX), p[1].as_bool().unwrap_or(false)))
                    .collect();
                ensure!(path.len() >= 2 && path[0] == (a.0, a.1) && path[path.len() - 1] == (b.0, b.1), "path does not start and end with the given links");
                let (mut at, mut len) = (s, 0);
                for l in &path[1..path.len() - 1] {
                    let e = *m.links.get(l).ok_or_else(|| format!("link {:?} does not exist", l))?;
                    ensure!(m.arcs[e].0 == at, "link {:?} does not start at node {}", l, at);
                    at = m.arcs[e].1;
                    len += w[e] as u64;
                }
                ensure!(at == t && len == between, "links between have length {} instead of {} and end at {} instead of {}", len, between, at, t);
                Ok(())
            }
        }
    }
}

fn store<T>(dir: &Scratch, name: &str, data: &[T]) {
    let bytes = unsafe { std::slice::from_raw_parts(data.as_ptr() as *const u8, std::mem::size_of_val(data)) };
    std::fs::write(dir.path(name), bytes).unwrap();
}

fn coordinate(c: &mut Case) -> f32 {
    match c.draw(2) {
        0 => c.u32(0, 6) as f32,
        1 => c.u32(0, 1 << 20) as f32 / 65536.0 + 40.0,
        _ => c.u32(0, 720) as f32 / 4.0 - 90.0,
    }
}

fn setup(c: &mut Case) -> (Model, Scratch) {
    let n = c.size(1, if c.big { 60 } else { 10 });
    let num_links = c.size(1, if c.big { 120 } else { 14 });
    let mut ids = BTreeSet::new();
    for _ in 0..num_links {
        ids.insert(if c.coin() { c.range(0, 40) } else { c.range(0, 3000) });
    }
    let max = *c.pick(&[10, 1000, 1_000_000]);
    // arcs with (tail, head, weight, link, direction)
    let mut arcs = Vec::new();
    for (i, &id) in ids.iter().enumerate() {
        let (a, b) = if i + 1 < n && c.chance(2, 3) {
            (i as u32, i as u32 + 1)
        } else {
            (c.u32(0, n as u32 - 1), c.u32(0, n as u32 - 1))
        };
        let dirs = c.weighted(&[3, 1, 1, 0]);
        if dirs != 1 {
            arcs.push((a, b, c.u32(1, max), id, true));
        }
        if dirs != 2 {
            arcs.push((b, a, c.u32(1, max), id, false));
        }
    }
    arcs.sort_by_key(|a| a.0);
    let coords: Vec<(f32, f32)> = (0..n).map(|_| (coordinate(c), coordinate(c))).collect();
    let mut m = Model {
        n,
        arcs: arcs.iter().map(|a| (a.0, a.1)).collect(),
        coords,
        links: arcs.iter().enumerate().map(|(i, a)| ((a.3, a.4), i)).collect(),
        base: arcs.iter().map(|a| a.2).collect(),
        metrics: Vec::new(),
        dists: Vec::new(),
    };
    m.push(m.base.clone());
    c.note(|| format!("n={} arcs (tail, head, travel time, link, from ref)={:?} coords={:?}", n, arcs, m.coords));

    let dir = Scratch::new();
    let mut first_out = vec![0u32; n + 1];
    for a in &arcs {
        first_out[a.0 as usize + 1] += 1;
    }
    for v in 0..n {
        first_out[v + 1] += first_out[v];
    }
    store(&dir, "first_out", &first_out);
    store(&dir, "head", &arcs.iter().map(|a| a.1).collect::<Vec<_>>());
    store(&dir, "travel_time", &m.base);
    store(&dir, "latitude", &m.coords.iter().map(|x| x.0).collect::<Vec<_>>());
    store(&dir, "longitude", &m.coords.iter().map(|x| x.1).collect::<Vec<_>>());
    let mut bits = BitVec::new(*ids.iter().last().unwrap() as usize + 1);
    for &id in &ids {
        bits.set(id as usize);
    }
    bits.write_to(&dir.path("link_id_mapping")).unwrap();
    let arc = |id, d| m.links.get(&(id, d)).map_or(u32::MAX, |&e| e as u32);
    store(&dir, "here_rank_to_link_id", &ids.iter().flat_map(|&id| [arc(id, true), arc(id, false)]).collect::<Vec<u32>>());
    let g = G { n, edges: arcs.iter().map(|a| (a.0, a.1, a.2)).collect() };
    store(&dir, "cch_perm", order(c, &g).order());
    (m, dir)
}

fn query(c: &mut Case, m: &Model) -> Query {
    if c.coin() {
        let mut p = || {
            if c.coin() {
                m.coords[c.size(0, m.n - 1)]
            } else {
                (coordinate(c), coordinate(c))
            }
        };
        Query::Geo(p(), p())
    } else {
        let keys: Vec<_> = m.links.keys().cloned().collect();
        let mut p = || {
            let l = *c.pick(&keys);
            // the reported length of a closed first or last link means nothing
            let usable = m.metrics.iter().all(|w| w[m.links[&l]] < INFINITY_W);
            (l.0, l.1, if usable { c.u32(0, 8) as f32 / 8.0 } else { 0.0 })
        };
        Query::Here(p(), p())
    }
}

fn ask(server: &Server, m: &Model, q: &Query, lo: usize) -> Result<Vec<usize>, String> {
    let (status, body) = server.get(&q.path())?;
    ensure!(status == 200, "{}: status {}", q.path(), status);
    let v: Value = serde_json::from_slice(&body).map_err(|e| format!("{}: {} in {:?}", q.path(), e, String::from_utf8_lossy(&body)))?;
    let mut versions = Vec::new();
    let mut msg = String::new();
    for i in lo..m.metrics.len() {
        match q.check(m, i, &v) {
            Ok(()) => versions.push(i),
            Err(e) => msg = e,
        }
    }
    ensure!(!versions.is_empty(), "{}: {} (after {} of {} customizations); got {}", q.path(), msg, lo, m.metrics.len() - 1, v);
    Ok(versions)
}

/// Wait until the last customization took effect. Returns the first metric which may still be the current one.
fn settle(server: &Server, m: &Model, mut lo: usize) -> Result<usize, String> {
    let last = m.metrics.len() - 1;
    let keys: Vec<_> = m.links.iter().collect();
    while lo < last {
        let mut found = None;
        'search: for (a, &ea) in &keys {
            for (b, &eb) in &keys {
                let d = |v: usize| m.dists[v][m.arcs[ea].1 as usize][m.arcs[eb].0 as usize];
                if d(lo) != d(last) && (d(lo) >= INF || d(last) >= INF || d(lo).abs_diff(d(last)) > 4) {
                    found = Some(Query::Here((a.0, a.1, 0.0), (b.0, b.1, 0.0)));
                    break 'search;
                }
            }
        }
        let q = match found {
            None => return Ok(lo),
            Some(q) => q,
        };
        let start = Instant::now();
        let before = lo;
        while lo == before {
            lo = ask(server, m, &q, lo)?[0];
            ensure!(start.elapsed() < LIMIT, "{}: still answered with customization {} of {}", q.path(), lo, last);
            if lo == before {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
    Ok(lo)
}

fn updates(c: &mut Case, m: &Model) -> (String, Vec<u32>) {
    let mut w = m.metrics.last().unwrap().clone();
    let mut entries = Vec::new();
    let keys: Vec<_> = m.links.keys().cloned().collect();
    let max = *c.pick(&[10u32, 1000, 1_000_000]);
    for _ in 0..c.size(0, 5) {
        let (id, dir) = if c.chance(1, 6) {
            (*c.pick(&[5u64, 77, 2999, 3001, 100_000, u32::MAX as u64, u64::MAX]), c.coin())
        } else {
            *c.pick(&keys)
        };
        let weight = if c.chance(1, 5) { None } else { Some(if c.chance(1, 12) { if m.n > 15 { 10_000_000 } else { 100_000_000 } } else { c.u32(1, max) }) };
        if let Some(&e) = m.links.get(&(id, dir)) {
            w[e] = weight.unwrap_or(INFINITY_W);
        }
        entries.push(format!("[{},{},{}]", id, dir, weight.map_or("null".to_string(), |w| w.to_string())));
    }
    (format!("[{}]", entries.join(",")), w)
}

/// Requests which have to be refused.
fn invalid(c: &mut Case, server: &Server, m: &Model) -> Result<(), String> {
    let key = *m.links.keys().next().unwrap();
    let existing = format!("{}&from_direction={}", key.0, key.1);
    let res = match c.draw(7) {
        0 => {
            // links which do not exist
            let missing: Vec<(u64, bool)> = m.links.keys().map(|k| (k.0, !k.1)).filter(|k| !m.links.contains_key(k)).chain([(4000, true), (u64::MAX, false), (1 << 33, true)]).collect();
            let bad = *c.pick(&missing);
            let swap = c.coin();
            let (a, b) = if swap { (key, bad) } else { (bad, key) };
            let q = Query::Here((a.0, a.1, 0.5), (b.0, b.1, 0.5)).path();
            c.note(|| q.clone());
            let (status, body) = server.get(&q)?;
            // documented
            ensure!(status == 500, "{}: status {} {:?}", q, status, String::from_utf8_lossy(&body));
            return Ok(());
        }
        1 => {
            let q = c.pick(&["/query", "/query?from_lat=1.0", "/query?from_lat=x&from_lng=1&to_lat=1&to_lng=1", "/query?from_lat=1&from_lng=1&to_lat=1&to_lng=", "/nothing", "/here_query?x=1"]).to_string();
            c.note(|| q.clone());
            server.get(&q)
        }
        2 => {
            let q = format!("/here_query?from_link_id={}&from_link_fraction=0.5&to_link_id=-1&to_direction=true&to_link_fraction=0", existing);
            c.note(|| q.clone());
            server.get(&q)
        }
        3 | 4 => {
            // one entry of a customization is not valid: nothing may be applied
            let bad = *c.pick(&["-1", "1.5", "2147483647", "2147483648", "4294967296", "\"3\"", "[]", "true", "1e3", "18446744073709551616"]);
            let body = format!("[[{},{},1],[{},{},{}]]", key.0, key.1, key.0, key.1, bad);
            c.note(|| body.clone());
            server.post(&body)
        }
        5 => {
            let body = c.pick(&["", "[", "{}", "[[1,true]]", "[[1,2,3]]", "[[-1,true,3]]", "null", "[1,true,3]", "[[1,true,3,4]]"]).to_string();
            c.note(|| body.clone());
            server.post(&body)
        }
        6 => {
            let p = *c.pick(&["/../secret", "/..%2fsecret", "/%2e%2e/secret", "/%2e%2e%2fsecret", "//secret", "/token/../../secret", "/..%5csecret", "/secret"]);
            c.note(|| p.to_string());
            server.get(p)
        }
        _ => {
            let raw: &[u8] = *c.pick::<&[u8]>(&[&b"GARBAGE\r\n\r\n"[..], b"GET /query HTTP/9.9\r\n\r\n", b"POST /customize HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", b"DELETE /customize HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", b"\0\0\0\0\r\n\r\n"]);
            c.note(|| format!("{:?}", String::from_utf8_lossy(raw)));
            // any answer (or none) is fine
            let _ = server.http(raw);
            return Ok(());
        }
    };
    let (status, body) = res?;
    ensure!((400..600).contains(&status), "invalid request was answered with status {}: {:?}", status, String::from_utf8_lossy(&body));
    Ok(())
}

/// Requests which may be answered with anything but must not disturb the server.
fn strange(c: &mut Case, server: &Server, m: &Model) -> Result<(), String> {
    let key = *m.links.keys().next().unwrap();
    let f = *c.pick(&["NaN", "inf", "-inf", "1e30", "-1e30", "3.4e38", "-5"]);
    let q = if c.coin() {
        format!("/query?from_lat={}&from_lng=1&to_lat=1&to_lng={}", f, c.pick(&["NaN", "1e38", "0"]))
    } else {
        let l = format!("{}", key.0);
        format!("/here_query?from_link_id={}&from_direction={}&from_link_fraction={}&to_link_id={}&to_direction={}&to_link_fraction={}", l, key.1, f, l, key.1, f)
    };
    c.note(|| q.clone());
    server.get(&q)?;
    Ok(())
}

fn history(c: &mut Case) -> Result<(), String> {
    let (mut m, dir) = setup(c);
    let mut server = Server::start(dir)?;
    let mut lo = 0;
    let mut disturbed = false;
    for _ in 0..c.size(2, if c.big { 25 } else { 12 }) {
        match c.weighted(&[6, 4, 2, 2, 1, 2]) {
            0 => {
                let q = query(c, &m);
                c.note(|| q.path());
                lo = ask(&server, &m, &q, lo)?[0];
                if disturbed || m.metrics.len() > 1 {
                    c.nontrivial();
                }
            }
            1 => {
                // several customizations right after each other
                for _ in 0..c.weighted(&[4, 2, 1, 1]) + 1 {
                    let (body, w) = updates(c, &m);
                    c.note(|| format!("customize {}", body));
                    let (status, res) = server.post(&body)?;
                    ensure!(status == 200 && res.is_empty(), "customize {}: status {}", body, status);
                    m.push(w);
                }
            }
            2 => {
                c.note(|| "wait until the last customization is applied".to_string());
                lo = settle(&server, &m, lo)?;
            }
            3 => {
                invalid(c, &server, &m)?;
                disturbed = true;
            }
            4 => {
                strange(c, &server, &m)?;
                disturbed = true;
            }
            _ => {
                // at the same time
                let queries: Vec<Query> = (0..c.size(2, 5)).map(|_| query(c, &m)).collect();
                c.note(|| format!("at the same time: {:?}", queries.iter().map(Query::path).collect::<Vec<_>>()));
                let (server, m) = (&server, &m);
                let res: Vec<_> = std::thread::scope(|s| {
                    let handles: Vec<_> = queries.iter().map(|q| s.spawn(move || ask(server, m, q, lo))).collect();
                    handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
                });
                for r in res {
                    r?;
                }
            }
        }
        ensure!(server.child.try_wait().unwrap().is_none(), "the server ended");
    }
    lo = settle(&server, &m, lo)?;
    for _ in 0..2 {
        let q = query(c, &m);
        c.note(|| q.path());
        lo = ask(&server, &m, &q, lo)?[0];
    }
    Ok(())
}
