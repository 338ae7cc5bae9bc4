//! A small property-based testing engine.
//!
//! Every case is generated from a sequence of bounded integer choices.  In generation mode the
//! choices come from a PRNG seeded by (VERIF_SEED, sub-check, case index); in replay mode they come
//! from a recorded sequence (values are clamped, missing values are 0).  Shrinking works on the
//! recorded sequence, so every generator shrinks for free, and a replay file is just the sequence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in p.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    let mut r = Rng::new(h);
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let v: Vec<u64> = s.bytes().map(u64::from).collect();
    hash64(&v)
}

pub struct Case {
    replay: Option<Vec<u64>>,
    rng: Rng,
    pos: usize,
    choices: Vec<u64>,
    pub verbose: bool,
    pub big: bool,
    notes: Vec<String>,
    labels: Vec<&'static str>,
    nontrivial: bool,
}

impl Case {
    fn generate(seed: u64, big: bool) -> Self {
        Case {
            replay: None,
            rng: Rng::new(seed),
            pos: 0,
            choices: Vec::new(),
            verbose: false,
            big,
            notes: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
        }
    }
    fn from_choices(choices: Vec<u64>, big: bool) -> Self {
        let mut c = Case::generate(0, big);
        c.replay = Some(choices);
        c
    }
    /// uniform choice in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(max),
            None => {
                if max == u64::MAX {
                    self.rng.next()
                } else {
                    let r = self.rng.next();
                    ((r as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.draw(hi - lo)
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as u64, hi as u64) as u32
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.draw(items.len() as u64 - 1) as usize;
        &items[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// a permutation of 0..n (the all-zero choice sequence yields the identity)
    pub fn permutation(&mut self, n: usize) -> Vec<u32> {
        let mut p: Vec<u32> = (0..n as u32).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.draw((n - 1 - i) as u64) as usize;
            p.swap(i, j);
        }
        p
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    /// Something which fails in a way that is on record in known_findings.txt (under this key): only a failure if it is not.
    pub fn finding(&mut self, key: &'static str, message: String) -> Result<(), String> {
        if known_findings().iter().any(|f| f.1 == key) {
            self.label(key);
            Ok(())
        } else {
            Err(message)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s)
        }
    }
}

pub type PropFn = fn(&mut Case) -> Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        {
            let (a, b) = (&$a, &$b);
            if a != b {
                return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
            }
        }
    };
}

pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub big: bool,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: &'static [Sub],
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static IN_CASE: RefCell<bool> = RefCell::new(false);
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("panic at {}: {}", loc, msg);
        let in_case = IN_CASE.with(|c| *c.borrow());
        if in_case {
            PANIC_MSG.with(|m| *m.borrow_mut() = Some(full));
        } else {
            // a reporting thread that lost its partner says nothing about the cause
            if !full.contains("SendError") {
                *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(full);
            }
        }
    }));
}

/// Run one case; panics of the code under test become failures.
fn run_case(f: PropFn, case: &mut Case) -> Result<(), String> {
    PANIC_MSG.with(|m| *m.borrow_mut() = None);
    IN_CASE.with(|c| *c.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(|| f(case)));
    IN_CASE.with(|c| *c.borrow_mut() = false);
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG
                .with(|m| m.borrow_mut().take())
                .or_else(|| LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take())
                .unwrap_or_else(|| "panic (no message)".into());
            Err(m)
        }
    }
}

/// Run a closure of the code under test and tell whether it panicked.
pub fn catches<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.replace(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default())
}

pub struct Failure {
    pub idx: u64,
    pub seed: u64,
    pub choices: Vec<u64>,
    pub message: String,
    pub notes: Vec<String>,
    pub shrink_steps: u64,
}

#[derive(Default)]
pub struct SubStats {
    pub name: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
    pub max_case_ms: u64,
    pub timed_out: bool,
}

pub fn case_seed(seed: u64, sub: &str, idx: u64) -> u64 {
    hash64(&[seed, hash_str(sub), idx])
}

pub struct RunCfg {
    pub seed: u64,
    pub cases: u64,
    pub threads: usize,
    pub budget: Duration,
    /// per-thread slots into which the index of the running case is written (crash attribution)
    pub slot_file: Option<std::path::PathBuf>,
    /// a single case running longer than this does not terminate for all practical purposes
    pub case_limit: Duration,
}

/// The recorded findings: property, key, description.
pub fn known_findings() -> Vec<(String, String, String)> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let text = std::fs::read_to_string(std::path::Path::new(&dir).join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut w = l.splitn(3, ' ');
            Some((w.next()?.to_string(), w.next()?.to_string(), w.next()?.to_string()))
        })
        .collect()
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return vec![0];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect()
    }
}

static ALL_CPUS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

/// All CPUs of the process (before any pinning).
pub fn all_cpus() -> Vec<usize> {
    let mut c = ALL_CPUS.lock().unwrap();
    if c.is_empty() {
        *c = cpus();
    }
    c.clone()
}

/// Restrict the calling thread to the given CPUs. The code under test derives the size of its
/// worker pools from the CPUs available to the calling thread.
pub fn pin(cpus: &[usize]) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for &c in cpus {
            libc::CPU_SET(c, &mut set);
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

pub fn run_sub(sub: &Sub, cfg: &RunCfg) -> SubStats {
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    let merged: Mutex<SubStats> = Mutex::new(SubStats::default());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let nontrivial_idx: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    let cpus = all_cpus();
    let running: Vec<(AtomicU64, AtomicU64)> = (0..cfg.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let active = AtomicU64::new(cfg.threads as u64);

    std::thread::scope(|s| {
        {
            let (running, active) = (&running, &active);
            s.spawn(move || {
                while active.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64;
                    for (idx, since) in running {
                        let i = idx.load(Ordering::Relaxed);
                        if i != u64::MAX && now > since.load(Ordering::Relaxed) + cfg.case_limit.as_millis() as u64 && idx.load(Ordering::Relaxed) == i {
                            eprintln!("case {} of {} does not end", i, sub.name);
                            if let Some(p) = cfg.slot_file.as_ref() {
                                let _ = std::fs::write(p.with_extension("hang"), i.to_le_bytes());
                            }
                            std::process::exit(4);
                        }
                    }
                }
            });
        }
        for t in 0..cfg.threads {
            let (cpus, running, active) = (&cpus, &running, &active);
            let (next, stop, timed_out, fail, merged, distinct, nontrivial_idx) = (&next, &stop, &timed_out, &fail, &merged, &distinct, &nontrivial_idx);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    use std::io::{Seek, SeekFrom, Write};
                    pin(&[cpus[t % cpus.len()]]);
                    let mut slot = cfg
                        .slot_file
                        .as_ref()
                        .map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p.with_extension(format!("{}", t))).unwrap());
                    let mut local = SubStats::default();
                    let mut local_distinct = HashSet::new();
                    let mut local_nt = Vec::new();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > cfg.budget {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= cfg.cases {
                            break;
                        }
                        if let Some(f) = slot.as_mut() {
                            let _ = f.seek(SeekFrom::Start(0));
                            let _ = f.write_all(&idx.to_le_bytes());
                        }
                        let t0 = Instant::now();
                        running[t].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        running[t].0.store(idx, Ordering::Relaxed);
                        let mut case = Case::generate(case_seed(cfg.seed, sub.name, idx), sub.big);
                        let r = run_case(sub.f, &mut case);
                        running[t].0.store(u64::MAX, Ordering::Relaxed);
                        local.max_case_ms = local.max_case_ms.max(t0.elapsed().as_millis() as u64);
                        local.evaluations += 1;
                        for l in &case.labels {
                            *local.labels.entry(l.to_string()).or_insert(0) += 1;
                        }
                        if case.nontrivial {
                            local.nontrivial += 1;
                            local_distinct.insert(hash64(&case.choices));
                            if local_nt.len() < 8 {
                                local_nt.push(idx);
                            }
                        }
                        if let Err(msg) = r {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |(i, _, _)| idx < *i) {
                                *f = Some((idx, case.choices.clone(), msg));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    active.fetch_sub(1, Ordering::Relaxed);
                    if let Some(p) = cfg.slot_file.as_ref() {
                        let _ = std::fs::remove_file(p.with_extension(format!("{}", t)));
                    }
                    let mut m = merged.lock().unwrap();
                    m.evaluations += local.evaluations;
                    m.nontrivial += local.nontrivial;
                    m.max_case_ms = m.max_case_ms.max(local.max_case_ms);
                    for (k, v) in local.labels {
                        *m.labels.entry(k).or_insert(0) += v;
                    }
                    distinct.lock().unwrap().extend(local_distinct);
                    nontrivial_idx.lock().unwrap().extend(local_nt);
                })
                .unwrap();
        }
    });

    let mut stats = merged.into_inner().unwrap();
    stats.name = sub.name.to_string();
    stats.distinct_nontrivial = distinct.into_inner().unwrap().len() as u64;
    stats.timed_out = timed_out.load(Ordering::Relaxed);
    if let Some((idx, choices, msg)) = fail.into_inner().unwrap() {
        let checkpoint = cfg.slot_file.as_ref().map(|p| p.with_extension("fail"));
        let save = |choices: &[u64], msg: &str| {
            if let Some(p) = checkpoint.as_ref() {
                // survives a crash or an endless run met while shrinking
                let v = serde_json::json!({"idx": idx, "choices": choices, "message": msg});
                let _ = std::fs::write(p.with_extension("tmp"), v.to_string());
                let _ = std::fs::rename(p.with_extension("tmp"), p);
            }
        };
        save(&choices, &msg);
        let done = std::sync::Arc::new(AtomicBool::new(false));
        {
            let done = done.clone();
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(45));
                if !done.load(Ordering::Relaxed) {
                    eprintln!("shrinking does not end");
                    std::process::exit(4);
                }
            });
        }
        let (choices, msg, steps) = shrink(sub, choices, msg, &save);
        let mut c = Case::from_choices(choices.clone(), sub.big);
        c.verbose = true;
        let r = run_case(sub.f, &mut c);
        done.store(true, Ordering::Relaxed);
        stats.failure = Some(Failure {
            idx,
            seed: cfg.seed,
            choices,
            message: match r {
                Err(m) => m,
                Ok(()) => format!("(not reproduced on re-run) {}", msg),
            },
            notes: c.notes,
            shrink_steps: steps,
        });
    } else {
        let mut idxs = nontrivial_idx.into_inner().unwrap();
        idxs.sort_unstable();
        for idx in idxs.into_iter().take(2) {
            let mut c = Case::generate(case_seed(cfg.seed, sub.name, idx), sub.big);
            c.verbose = true;
            let _ = run_case(sub.f, &mut c);
            let mut s = c.notes.join("; ");
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            stats.samples.push(format!("{} case {}: {}", sub.name, idx, s));
        }
    }
    stats.wall_s = start.elapsed().as_secs_f64();
    stats
}

pub fn replay(sub: &Sub, choices: Vec<u64>) -> (Result<(), String>, Vec<String>) {
    let mut c = Case::from_choices(choices, sub.big);
    c.verbose = true;
    let r = run_case(sub.f, &mut c);
    (r, c.notes)
}

pub fn regenerate(sub: &Sub, seed: u64, idx: u64) -> (Result<(), String>, Vec<u64>, Vec<String>) {
    let mut c = Case::generate(case_seed(seed, sub.name, idx), sub.big);
    c.verbose = true;
    let r = run_case(sub.f, &mut c);
    (r, c.choices, c.notes)
}

/// Kind of a failure: shrinking may not wander from a wrong result to an unrelated panic.
fn kind(msg: &str) -> String {
    if let Some(rest) = msg.strip_prefix("panic at ") {
        // keep file:line
        let end = rest.find(": ").unwrap_or(rest.len());
        format!("panic {}", &rest[..end])
    } else {
        msg.split(|c: char| c.is_ascii_digit() || c == ':').next().unwrap_or("").to_string()
    }
}

fn shrink(sub: &Sub, choices: Vec<u64>, msg: String, save: &dyn Fn(&[u64], &str)) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let mut best = choices;
    let mut best_msg = msg;
    let want = kind(&best_msg);
    let mut steps = 0u64;
    let limit = 40_000u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, steps: &mut u64| -> bool {
        if *steps >= limit || start.elapsed() > Duration::from_secs(20) {
            return false;
        }
        *steps += 1;
        let mut c = Case::from_choices(cand, sub.big);
        if let Err(m) = run_case(sub.f, &mut c) {
            if kind(&m) == want {
                // use the effective choices
                let eff = c.choices;
                if eff.len() < best.len() || (eff.len() == best.len() && eff < *best) {
                    *best = eff;
                    *best_msg = m;
                    save(best, best_msg);
                    return true;
                }
            }
        }
        false
    };
    // normalise
    {
        let b = best.clone();
        attempt(b, &mut best, &mut best_msg, &mut steps);
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !attempt(cand, &mut best, &mut best_msg, &mut steps) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // delete chunks together with decrementing one of the first choices (number of steps)
        for size in 1..=6usize {
            let mut i = 1;
            while i < best.len() {
                let mut removed = false;
                for k in 0..i.min(6) {
                    if best[k] == 0 || i >= best.len() {
                        continue;
                    }
                    let mut cand = best.clone();
                    cand[k] -= 1;
                    cand.drain(i..(i + size).min(best.len()));
                    if attempt(cand, &mut best, &mut best_msg, &mut steps) {
                        removed = true;
                        break;
                    }
                }
                if !removed {
                    i += 1;
                }
            }
        }
        // zero chunks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(cand, &mut best, &mut best_msg, &mut steps);
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(cand, &mut best, &mut best_msg, &mut steps) && i < best.len() {
                    let mut lo = 0;
                    let mut hi = best[i];
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(cand, &mut best, &mut best_msg, &mut steps) {
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        // decrement together with deleting a following element (lengths)
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        if i + 1 < cand.len() {
                            cand.remove(i + 1);
                        }
                        attempt(cand, &mut best, &mut best_msg, &mut steps);
                    }
                }
            }
            i += 1;
        }
        if best == before || steps >= limit || start.elapsed() > Duration::from_secs(20) {
            break;
        }
    }
    (best, best_msg, steps)
}
