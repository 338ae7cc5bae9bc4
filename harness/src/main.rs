#![allow(clippy::all)]
#[macro_use]
mod pbt;
mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c08;
mod c09;
mod c12;
mod c13;
mod c14;
mod c15;
mod c18;
mod c17;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c29;
mod td;
mod gen;

use pbt::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

fn properties() -> Vec<&'static Property> {
    vec![&c01::PROP, &c02::PROP, &c03::PROP, &c03::PROP04, &c05::PROP, &c06::PROP, &c06::PROP07, &c08::PROP, &c09::PROP, &c09::PROP10, &c09::PROP11, &c12::PROP,
        &c13::PROP, &c14::PROP, &c15::PROP, &c15::PROP16, &c18::PROP, &c17::PROP, &c19::PROP, &c20::PROP, &c21::PROP, &c22::PROP, &c23::PROP, &c24::PROP, &c25::PROP, &c26::PROP, &c27::PROP, &c27::PROP28, &c29::PROP]
}

fn find(id: &str) -> &'static Property {
    properties().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        exit(2)
    })
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// Seconds after which a single case (normally milliseconds) counts as not terminating.
fn case_limit() -> u64 {
    std::env::var("PBT_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

fn main() {
    all_cpus();
    let _ = rayon::ThreadPoolBuilder::new().num_threads(4).build_global();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &args[3]),
        Some("run") => run(&args[2], &args[3], Path::new(&args[4])),
        Some("case") => case(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap()),
        Some("replay") => replay_file(&args[2]),
        Some("list") => {
            for p in properties() {
                for s in p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
        }
        _ => {
            eprintln!("usage: rrr-pbt check ID quick|thorough | replay FILE | list");
            exit(2)
        }
    }
}

/// Does this run of a single case fail, crash or not end?
fn fails_or_hangs(mut cmd: Command) -> bool {
    let mut child = cmd.spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return st.code() == Some(1) || st.signal().map_or(false, |s| [4, 6, 7, 8, 11].contains(&s));
        }
        if t0.elapsed().as_secs() > case_limit() {
            let _ = child.kill();
            let _ = child.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// Supervisor: runs the generated search in a child process, so that a crash of the code under test
/// (signal) is attributed to a case, and writes the evidence.
fn check(id: &str, tier: &str) {
    let start = Instant::now();
    let prop = find(id);
    let verif = verif_dir();
    std::fs::create_dir_all(verif.join("evidence")).unwrap();
    let replays = verif.join("replays");
    std::fs::create_dir_all(&replays).unwrap();
    for e in std::fs::read_dir(&replays).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with(&format!("{}-", id)) {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let scratch = std::env::temp_dir().join(format!("rrr-pbt-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();

    let mut subs = Vec::new();
    let mut violations = Vec::new();
    let mut error = None;
    for sub in prop.subs {
        if let Ok(only) = std::env::var("ONLY") {
            if !sub.name.contains(&only) {
                continue;
            }
        }
        let out = scratch.join(format!("{}.json", sub.name));
        let status = Command::new(std::env::current_exe().unwrap())
            .args(["run", id, sub.name])
            .arg(&out)
            .env("PBT_TIER", tier)
            .env("PBT_SCRATCH", &scratch)
            .status()
            .unwrap();
        if status.success() {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
            if !v["failure"].is_null() {
                let f = &v["failure"];
                let path = replays.join(format!("{}-{}.json", id, sub.name));
                std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).unwrap();
                eprintln!("[{}] {} FAILED: {}", id, sub.name, f["message"].as_str().unwrap_or(""));
                for n in f["notes"].as_array().unwrap() {
                    eprintln!("    {}", n.as_str().unwrap_or(""));
                }
                println!("VIOLATION property={} replay={}", id, path.display());
                violations.push(json!({"sub": sub.name, "message": f["message"], "replay": path.display().to_string()}));
            }
            eprintln!(
                "[{}] {}: {} cases, {} non-trivial ({} distinct), {:.1}s, slowest case {} ms{}  {}",
                id,
                sub.name,
                v["evaluations"],
                v["nontrivial"],
                v["distinct_nontrivial"],
                v["wall_s"].as_f64().unwrap_or(0.0),
                v["max_case_ms"],
                if v["timed_out"] == json!(true) { " (time budget reached)" } else { "" },
                v["labels"]
            );
            subs.push(v);
        } else if let Some(v) = std::fs::read_to_string(scratch.join(format!("{}.slot.fail", sub.name))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            // a failure was found, but shrinking it ended in a crash or did not end: report what there is, if it reproduces
            let path = replays.join(format!("{}-{}.json", id, sub.name));
            let f = json!({"property": id, "sub": sub.name, "seed": seed(), "case": v["idx"], "choices": v["choices"], "message": v["message"], "notes": ["not completely shrunk: some variants crash or do not end"]});
            std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.arg("replay").arg(&path).current_dir(&scratch).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            if fails_or_hangs(cmd) {
                eprintln!("[{}] {} FAILED: {}", id, sub.name, v["message"].as_str().unwrap_or(""));
                println!("VIOLATION property={} replay={}", id, path.display());
                violations.push(json!({"sub": sub.name, "message": v["message"], "replay": path.display().to_string()}));
            } else {
                error = Some(format!("{}: a failure was found ({}) which does not reproduce", sub.name, v["message"]));
            }
        } else if let Some(sig) = status.signal().filter(|s| [4, 6, 7, 8, 11].contains(s)) {
            // crash: find the culprit among the cases that were running
            let mut attributed = false;
            for t in 0..64 {
                let slot = scratch.join(format!("{}.slot.{}", sub.name, t));
                if let Ok(b) = std::fs::read(&slot) {
                    if b.len() >= 8 {
                        let idx = u64::from_le_bytes(b[..8].try_into().unwrap());
                        let st = Command::new(std::env::current_exe().unwrap())
                            .args(["case", id, sub.name, &seed().to_string(), &idx.to_string()])
                            .env("PBT_SCRATCH", &scratch)
                            .status()
                            .unwrap();
                        if st.signal().map_or(false, |s| [4, 6, 7, 8, 11].contains(&s)) || st.code() == Some(1) {
                            let path = replays.join(format!("{}-{}.json", id, sub.name));
                            let msg = format!("process crashed with signal {}", sig);
                            std::fs::write(
                                &path,
                                json!({"property": id, "sub": sub.name, "seed": seed(), "case": idx, "message": msg}).to_string(),
                            )
                            .unwrap();
                            eprintln!("[{}] {} case {} {}", id, sub.name, idx, msg);
                            println!("VIOLATION property={} replay={}", id, path.display());
                            violations.push(json!({"sub": sub.name, "message": msg, "replay": path.display().to_string()}));
                            attributed = true;
                            break;
                        }
                    }
                }
            }
            if !attributed {
                error = Some(format!("{}: child crashed with signal {} but no single case reproduces it", sub.name, sig));
            }
        } else if status.code() == Some(4) {
            // a case that does not end: confirm it on its own before reporting it
            let hang = std::fs::read(scratch.join(format!("{}.slot.hang", sub.name))).ok();
            let idx = hang.map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
            let mut confirmed = false;
            if let Some(idx) = idx {
                let mut cmd = Command::new(std::env::current_exe().unwrap());
                cmd.args(["case", id, sub.name, &seed().to_string(), &idx.to_string()]).env("PBT_SCRATCH", &scratch);
                confirmed = fails_or_hangs(cmd);
                if confirmed {
                    let path = replays.join(format!("{}-{}.json", id, sub.name));
                    let msg = format!("does not terminate within {} s, or fails", case_limit());
                    std::fs::write(&path, json!({"property": id, "sub": sub.name, "seed": seed(), "case": idx, "message": msg}).to_string()).unwrap();
                    eprintln!("[{}] {} case {} {}", id, sub.name, idx, msg);
                    println!("VIOLATION property={} replay={}", id, path.display());
                    violations.push(json!({"sub": sub.name, "message": msg, "replay": path.display().to_string()}));
                }
            }
            if !confirmed {
                error = Some(format!("{}: a case took too long, but ends when run alone", sub.name));
            }
        } else {
            error = Some(format!("{}: child ended abnormally: {:?}", sub.name, status));
        }
        if !violations.is_empty() && tier == "quick" {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    for (property, key, what) in known_findings() {
        if property == id && subs.iter().any(|s| s["labels"].get(&key).is_some()) {
            println!("KNOWN-FINDING: property={} {} {}", id, key, what);
        }
    }
    let total: u64 = subs.iter().map(|s| s["evaluations"].as_u64().unwrap_or(0)).sum();
    let dnt: u64 = subs.iter().map(|s| s["distinct_nontrivial"].as_u64().unwrap_or(0)).sum();
    let samples: Vec<Value> = subs.iter().flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default()).collect();
    let detail: Vec<Value> = subs
        .iter()
        .map(|s| json!({"sub": s["name"], "evaluations": s["evaluations"], "nontrivial": s["nontrivial"], "distinct_nontrivial": s["distinct_nontrivial"], "labels": s["labels"], "wall_s": s["wall_s"], "time_budget_reached": s["timed_out"]}))
        .collect();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": dnt,
            "rule": prop.rule,
            "samples": samples,
            "per_generator": detail,
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "violation_details": violations,
    });
    std::fs::write(verif.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if !violations.is_empty() {
        exit(1);
    }
    if let Some(e) = error {
        eprintln!("ERROR: {}", e);
        exit(3);
    }
    println!("OK property={} tier={} cases={} nontrivial_distinct={} wall={:.1}s", id, tier, total, dnt, start.elapsed().as_secs_f64());
}

/// Runaway allocations of the code under test end the child (and are attributed to a case), not the sandbox.
fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

/// The code under test reports progress on stdout/stderr; it is not part of the result.
fn silence() {
    if std::env::var("PBT_NOISE").is_err() {
        unsafe {
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
        }
    }
}

fn run(id: &str, sub: &str, out: &Path) {
    limit_memory();
    // the code under test drops debugging files into the working directory when some assertions fail
    if let Ok(dir) = std::env::var("PBT_SCRATCH") {
        let _ = std::env::set_current_dir(dir);
    }
    silence();
    install_panic_hook();
    let prop = find(id);
    let sub = prop.subs.iter().find(|s| s.name == sub).unwrap();
    let tier = std::env::var("PBT_TIER").unwrap_or_else(|_| "quick".into());
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = if tier == "thorough" { sub.thorough } else { sub.quick };
    let slot = std::env::var("PBT_SCRATCH").ok().map(|d| PathBuf::from(d).join(format!("{}.slot.x", sub.name)));
    let threads = std::env::var("PBT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget = if tier == "thorough" { 3600 } else { 300 };
    // watchdog: a hang is an error of the check, never a violation
    let limit = budget + 200;
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("watchdog: the search did not end in time");
        exit(3);
    });
    let stats = run_sub(
        sub,
        &RunCfg {
            seed: seed(),
            cases: ((cases as f64 * scale) as u64).max(1),
            threads,
            budget: Duration::from_secs(budget),
            slot_file: slot,
            case_limit: Duration::from_secs(case_limit()),
        },
    );
    let failure = match &stats.failure {
        None => Value::Null,
        Some(f) => json!({
            "property": id, "sub": sub.name, "seed": f.seed, "case": f.idx, "choices": f.choices,
            "message": f.message, "notes": f.notes, "shrink_steps": f.shrink_steps,
        }),
    };
    let v = json!({
        "name": stats.name, "evaluations": stats.evaluations, "nontrivial": stats.nontrivial,
        "distinct_nontrivial": stats.distinct_nontrivial, "labels": stats.labels, "samples": stats.samples,
        "wall_s": stats.wall_s, "max_case_ms": stats.max_case_ms, "timed_out": stats.timed_out, "failure": failure,
    });
    std::fs::write(out, v.to_string()).unwrap();
    exit(0);
}

fn case(id: &str, sub: &str, seed: u64, idx: u64) {
    limit_memory();
    let _ = std::env::var("PBT_SCRATCH").map(std::env::set_current_dir);
    install_panic_hook();
    let prop = find(id);
    let sub = prop.subs.iter().find(|s| s.name == sub).unwrap();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || regenerate(sub, seed, idx)).unwrap();
    let (r, _, notes) = t.join().unwrap();
    for n in notes {
        println!("{}", n);
    }
    match r {
        Ok(()) => println!("case holds"),
        Err(m) => {
            println!("FAILED: {}", m);
            exit(1)
        }
    }
}

fn replay_file(file: &str) {
    limit_memory();
    install_panic_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let subname = v["sub"].as_str().unwrap().to_string();
    if v["choices"].is_array() {
        let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let prop = find(&id);
        let sub = prop.subs.iter().find(|s| s.name == subname).unwrap();
        let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || replay(sub, choices)).unwrap();
        let (r, notes) = t.join().unwrap();
        for n in notes {
            println!("{}", n);
        }
        match r {
            Ok(()) => println!("replay holds"),
            Err(m) => {
                println!("FAILED: {}", m);
                println!("VIOLATION property={} replay={}", id, file);
                exit(1)
            }
        }
    } else {
        case(&id, &subname, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap());
    }
}
