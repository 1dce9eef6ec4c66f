//! vmc: the model checker of /verif. See DESIGN.md.
//!
//!   vmc check ID            explores the property in a worker process and reports (exit 0, 1; 2 on errors)
//!   vmc worker ID FILE      the exploration itself
//!   vmc eval ID FAM PAYLOAD-FILE   one case (exit 0 holds, 1 violated)
//!   vmc replay FILE         one case from a replay file

mod checks;
mod data;
mod engine;
mod hist;
mod json;
mod langs;
mod node;
mod porter;
#[cfg(feature = "langs")]
mod probe;
mod voc;

use engine::{Cx, Known, Slots, Tier};
use serde_json::{json, Value};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A case that takes longer than this is taken for an endless loop.
const HANG: Duration = Duration::from_secs(90);

fn root() -> String {
    format!("{}/..", env!("CARGO_MANIFEST_DIR"))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// The open findings of a property: lines `open: property=<id> key=<key> <what fails>`.
fn known(id: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: property=")?;
            let l = l.strip_prefix(id)?.strip_prefix(" key=")?;
            let (k, w) = l.split_once(' ')?;
            Some(Known { key: k.into(), what: w.into() })
        })
        .collect()
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", id] => check(id),
        ["worker", id, file] => worker(id, file),
        ["eval", id, fam, file] => eval_file(id, fam, file),
        ["replay", file] => replay(file),
        ["child", rest @ ..] => checks::child(rest),
        _ => {
            eprintln!("usage: vmc check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn worker(id: &str, file: &str) -> i32 {
    limit_memory();
    let Some((id, c)) = checks::get(id) else { return 2 };
    let slots = Slots::create(file).expect("status file");
    let cx = Cx::new(id, tier(), known(id), Some(slots));
    c.explore(&cx);
    std::fs::write(format!("{}.result", file), cx.result().to_string()).unwrap();
    0
}

fn eval(id: &str, fam: &str, payload: &str) -> i32 {
    limit_memory();
    let Some((id, c)) = checks::get(id) else { return 2 };
    let cx = Cx::new(id, tier(), known(id), None);
    let ok = cx.run(&*c, fam, payload);
    let r = cx.result();
    for k in r["known"].as_array().unwrap() {
        println!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap());
    }
    if ok {
        println!("holds: property={} {} {}", id, fam, clip(payload, 200));
        0
    } else {
        println!("violated: property={} {} {}\n  {}", id, fam, clip(payload, 2000), r["violation"]["msg"].as_str().unwrap_or(""));
        1
    }
}

fn eval_file(id: &str, fam: &str, file: &str) -> i32 {
    match std::fs::read_to_string(file) {
        Ok(p) => eval(id, fam, &p),
        Err(_) => 2,
    }
}

fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    eval(v["property"].as_str().unwrap(), v["family"].as_str().unwrap(), v["payload"].as_str().unwrap())
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// Re-runs a case in a process of its own. Some(true): violated again (or crashed, or hung).
fn isolated(id: &str, fam: &str, payload: &str, dir: &str) -> (bool, String) {
    let f = format!("{}/case-{}", dir, id);
    std::fs::write(&f, payload).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["eval", id, fam, &f])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed() > HANG {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let _ = std::fs::remove_file(&f);
    match st {
        None => (true, format!("no end within {} s", HANG.as_secs())),
        Some(s) if s.code() == Some(0) => (false, out),
        Some(s) if s.code() == Some(1) => (true, out),
        Some(s) => (s.signal().is_some(), format!("crash: {}", s)),
    }
}

fn check(id: &str) -> i32 {
    let Some((id, c)) = checks::get(id) else {
        eprintln!("no check {}", id);
        return 2;
    };
    let start = Instant::now();
    let dir = format!("{}/target/run-{}", root(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let r = supervise(id, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            eprintln!("ERROR property={} {}", id, e);
            return 2;
        }
    };
    let v = &r["violation"];
    let counts = &r["counts"];
    let n = |k: &str| counts[k].as_u64().unwrap_or(0);
    let mut cov = json!({
        "states": r["outcomes"],
        "transitions": n("transitions"),
        "traces_validated_against_impl": n("traces"),
        "exhaustive": v.is_null() && !r["outcomes_capped"].as_bool().unwrap_or(false),
        "rule": c.rule(),
        "samples": r["samples"],
    });
    let mut counts = counts.clone();
    if let Some(o) = counts.as_object_mut() {
        o.remove("transitions");
        o.remove("traces");
        if !o.is_empty() {
            cov["counts"] = Value::Object(o.clone());
        }
    }
    if r["outcomes_capped"].as_bool().unwrap_or(false) {
        cov["states_note"] = json!("the set of distinct states was full; the number is a lower bound. All cases of the bound were run.");
        cov["exhaustive"] = json!(v.is_null());
    }
    if r["cut"].as_bool().unwrap_or(false) {
        cov["exhaustive"] = json!(false);
        cov["cut"] = json!("the time was up before all cases of the bound were run");
        println!("property={} stopped at its time limit, before the end of its bound", id);
    }
    for (k, x) in r["notes"].as_object().unwrap() {
        cov[k] = x.clone();
    }
    if !r["known"].as_array().unwrap().is_empty() {
        cov["known_findings_observed"] = r["known"].clone();
    }
    let ev = json!({
        "property": id,
        "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": c.level(),
        "coverage": cov,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if v.is_null() { 0 } else { 1 },
        "assumptions": c.assumptions(),
    });
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(
        format!("{}/evidence/{}.json", root(), id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    for k in r["known"].as_array().unwrap() {
        println!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap());
    }
    println!(
        "property={} tier={} states={} transitions={} traces={} wall={:.1}s",
        id, ev["tier"].as_str().unwrap(), ev["coverage"]["states"], ev["coverage"]["transitions"],
        ev["coverage"]["traces_validated_against_impl"], start.elapsed().as_secs_f64()
    );
    if v.is_null() {
        if n("traces") == 0 {
            eprintln!("ERROR property={} nothing was explored", id);
            return 2;
        }
        return 0;
    }
    std::fs::create_dir_all(format!("{}/replays", root())).unwrap();
    let path = format!("replays/{}.json", id);
    let rep = json!({
        "property": id, "family": v["fam"], "payload": v["payload"], "message": v["msg"],
        "reproduced": v["reproduced"], "replay_with": format!("./run.sh replay {}", path),
    });
    std::fs::write(format!("{}/{}", root(), path), serde_json::to_string_pretty(&rep).unwrap() + "\n").unwrap();
    println!("  case: {} {}", v["fam"].as_str().unwrap(), clip(v["payload"].as_str().unwrap(), 1000));
    println!("  {}", clip(v["msg"].as_str().unwrap(), 2000));
    println!("VIOLATION property={} replay={}", id, path);
    1
}

/// Runs the worker, watches over it, and returns its result with a confirmed violation or none.
fn supervise(id: &'static str, dir: &str) -> Result<Value, String> {
    let file = format!("{}/status", dir);
    let slots = Slots::create(&file).map_err(|e| e.to_string())?;
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &file])
        .spawn()
        .map_err(|e| e.to_string())?;
    // Slots::create truncates, so wait for the worker's own mapping: it maps the same file anew.
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); engine::N_SLOTS];
    let mut hung = vec![];
    let status = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        for (s, epoch, fam, pay, tr) in slots.active() {
            if seen[s].0 != epoch {
                seen[s] = (epoch, Instant::now());
            } else if seen[s].1.elapsed() > HANG && !tr {
                hung.push((fam, pay));
            }
        }
        if !hung.is_empty() {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    let blank = |v: Value| {
        json!({"violation": v, "known": [], "counts": {}, "outcomes": 0, "outcomes_capped": false, "samples": [], "notes": {}})
    };
    if let Some(s) = status {
        if s.success() {
            let t = std::fs::read_to_string(format!("{}.result", file)).map_err(|e| e.to_string())?;
            let mut r: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            if !r["violation"].is_null() {
                let (fam, pay) = (r["violation"]["fam"].as_str().unwrap().to_string(), r["violation"]["payload"].as_str().unwrap().to_string());
                if r["violation"]["msg"].as_str().unwrap().starts_with("harness:") {
                    return Err(r["violation"]["msg"].to_string());
                }
                let (again, _) = isolated(id, &fam, &pay, dir);
                r["violation"]["reproduced"] = json!(again);
            }
            return Ok(r);
        }
    }
    // A crash or a hang: find the case in progress that does it on its own.
    let why = match status {
        Some(s) => format!("{}", s),
        None => "no end".into(),
    };
    let mut cases = if hung.is_empty() {
        slots.active().into_iter().filter(|c| !c.4).map(|c| (c.2, c.3)).collect::<Vec<_>>()
    } else {
        hung
    };
    cases.sort_by_key(|c| c.1.len());
    for (fam, pay) in &cases {
        let (bad, msg) = isolated(id, fam, pay, dir);
        if bad {
            return Ok(blank(json!({"fam": fam, "payload": pay, "msg": format!("{} ({})", msg.trim(), why), "reproduced": true})));
        }
    }
    Err(format!("the exploration ended with {} and none of the {} cases in progress does so alone", why, cases.len()))
}
