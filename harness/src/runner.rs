//! Command line shared by every check binary.
use crate::engine::*;
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{exit, Command};

use std::sync::OnceLock;

static PROPS: OnceLock<fn() -> Vec<Prop>> = OnceLock::new();
fn props() -> Vec<Prop> { (PROPS.get().unwrap())() }

fn dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()) }
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64 }
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

fn find(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", id); exit(2) }
    }
}

fn limit(cmd: &mut Command, cpu: Option<u64>, mem: u64) {
    unsafe {
        cmd.pre_exec(move || {
            if let Some(c) = cpu {
                let l = libc::rlimit { rlim_cur: c, rlim_max: c + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            let l = libc::rlimit { rlim_cur: mem, rlim_max: mem };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
}

fn known() -> Value {
    let p = format!("{}/known_findings.json", dir());
    std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({"findings": []}))
}

/// worker <ID> <flight> <result>: runs every sub-check, writes the result file.
fn worker(id: &str, flight: &str, result: &str) -> ! {
    install_hook();
    let p = find(id);
    let fl = Flight::open(flight, false);
    let mut stats = Stats::default();
    let mut fail = None;
    let only = std::env::var("VERIF_SUB").ok();
    for si in 0..p.subs.len() {
        if let Some(ref o) = only { if o != p.subs[si].name { continue; } }
        let t = Timer::new();
        fail = run_sub(&p, si, seed(), thorough(), &fl, &mut stats);
        if std::env::var("VERIF_TIME").is_ok() { eprintln!("{} {}: {:.2}s", p.id, p.subs[si].name, t.secs()); }
        if fail.is_some() { break; }
    }
    let f = fail.map(|f| json!({"sub": f.sub, "index": f.idx, "choices": f.choices, "message": f.msg, "case": f.desc, "shrink_steps": f.shrink_steps}));
    let out = json!({
        "failure": f,
        "evaluations": stats.evaluations,
        "distinct": stats.distinct.len(),
        "labels": stats.labels,
        "samples": stats.samples,
        "per_sub": stats.per_sub,
        "exhaustive": stats.exhaustive_subs,
    });
    std::fs::write(result, serde_json::to_string(&out).unwrap()).unwrap();
    exit(0)
}

/// case <ID> <sub> <idx>: one case alone; 0 held, 3 violated (message and choices on stdout as JSON).
fn case(id: &str, sub: &str, idx: u64) -> ! {
    install_hook();
    let p = find(id);
    let s = p.subs.iter().find(|s| s.name == sub).unwrap();
    let b = std::thread::Builder::new().stack_size(16 << 20);
    let r = std::thread::scope(|sc| b.spawn_scoped(sc, || run_index(s, seed(), idx)).unwrap().join().unwrap());
    match r {
        (Ok(()), _) => { println!("HELD"); exit(0) }
        (Err(m), c) => { println!("{}", json!({"message": m, "choices": c})); exit(3) }
    }
}

fn write_replay(id: &str, f: &Value) -> String {
    let d = format!("{}/replays", dir());
    std::fs::create_dir_all(&d).unwrap();
    let path = format!("{}/{}-{}.json", d, id, f["sub"].as_str().unwrap_or("x"));
    let mut v = f.clone();
    v["property"] = json!(id);
    v["seed"] = json!(seed());
    v["replay_cmd"] = json!(format!("bash run.sh --replay {}", path));
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn run(id: &str) -> ! {
    let timer = Timer::new();
    let p = find(id);
    let exe = std::env::current_exe().unwrap();
    let tmp = format!("{}/.work/{}-{}", dir(), id, std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let flight_path = format!("{}/flight", tmp);
    let result_path = format!("{}/result.json", tmp);
    let fl = Flight::open(&flight_path, true);
    let mut cmd = Command::new(&exe);
    cmd.args(&["worker", id, &flight_path, &result_path]);
    cmd.env("VERIF_SCRATCH", &tmp);
    limit(&mut cmd, None, 16 << 30);
    let st = cmd.status().expect("worker");
    let mut res: Option<Value> = std::fs::read_to_string(&result_path).ok().and_then(|s| serde_json::from_str(&s).ok());
    let mut error = None;
    if !st.success() || res.is_none() {
        // the worker died: run each case that was in flight alone, under limits
        let mut found = None;
        let mut fls = fl.in_flight();
        fls.sort();
        for (si, idx) in fls {
            if si >= p.subs.len() { continue; }
            let sub = p.subs[si].name;
            let mut c = Command::new(&exe);
            c.args(&["case", id, sub, &idx.to_string()]);
            c.env("VERIF_SCRATCH", &tmp);
            limit(&mut c, Some(CASE_CPU_LIMIT * 2), 6 << 30);
            let o = c.output().expect("case");
            // a case that ended the process itself never says so
            if o.status.code() == Some(0) && o.stdout.ends_with(b"HELD\n") { continue; }
            let mut f = json!({"sub": sub, "index": idx, "choices": Value::Null, "case": Value::Null, "shrink_steps": 0});
            if o.status.code() == Some(3) {
                let v: Value = serde_json::from_slice(&o.stdout).unwrap_or(json!({}));
                f["message"] = v["message"].clone();
                f["choices"] = v["choices"].clone();
            } else {
                f["message"] = json!(match o.status.signal() {
                    Some(s) if s == libc::SIGXCPU || s == libc::SIGKILL => format!("did not finish within {} s of CPU time", CASE_CPU_LIMIT * 2),
                    Some(s) => format!("the process was killed by signal {} (stack overflow, memory exhaustion or abort)", s),
                    None => format!("the process exited with {:?}", o.status.code()),
                });
            }
            found = Some(f);
            break;
        }
        match found {
            Some(f) => res = Some(json!({"failure": f, "evaluations": 0, "distinct": 0, "labels": {}, "samples": [], "per_sub": [], "exhaustive": []})),
            None => error = Some(format!("worker ended with {:?} and no case in flight reproduces it", st)),
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let _ = std::fs::remove_dir(format!("{}/.work", dir()));
    if let Some(e) = error { eprintln!("ERROR: {}", e); exit(2); }
    let res = res.unwrap();

    // known findings: re-run exactly the recorded case
    if let Some(a) = known()["findings"].as_array() {
        install_hook();
        for k in a.iter().filter(|k| k["property"] == id) {
            let sub = p.subs.iter().find(|s| Some(s.name) == k["sub"].as_str());
            if let Some(s) = sub {
                let ch: Vec<u64> = k["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
                if replay_choices(s, ch).0.is_err() { println!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap_or("")); }
            }
        }
    }

    let bad = !res["failure"].is_null();
    let all_ex = !bad && res["exhaustive"].as_array().map(|a| a.len()) == Some(p.subs.len());
    let mut cov = json!({
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct"],
        "rule": p.rule,
        "samples": res["samples"],
        "per_sub": res["per_sub"],
        "classes": res["labels"],
    });
    if all_ex { cov["exhaustive"] = json!(true); }
    let ev = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed() as i64,
        "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": timer.secs(),
        "violations": if bad { 1 } else { 0 },
    });
    std::fs::create_dir_all(format!("{}/evidence", dir())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", dir(), id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if bad {
        let path = write_replay(id, &res["failure"]);
        println!("{}: {} (sub-check {}, case {})", id, trunc(res["failure"]["message"].as_str().unwrap_or(""), 2000), res["failure"]["sub"], res["failure"]["index"]);
        if let Some(c) = res["failure"]["case"].as_str() { println!("case: {}", trunc(c, 2000)); }
        println!("VIOLATION property={} replay={}", id, path);
        exit(1);
    }
    println!("{}: held; {} evaluations, {} distinct non-trivial, {:.1} s", id, res["evaluations"], res["distinct"], timer.secs());
    exit(0)
}

fn replay(file: &str) -> ! {
    install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let p = find(id);
    let s = p.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("sub-check");
    let r = if let Some(a) = v["choices"].as_array() {
        let (r, d) = replay_choices(s, a.iter().map(|x| x.as_u64().unwrap()).collect());
        println!("case: {}", d);
        r
    } else {
        run_index(s, v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap()).0
    };
    match r {
        Ok(()) => { println!("{}: held on this case", id); exit(0) }
        Err(m) => { println!("{}", m); println!("VIOLATION property={} replay={}", id, file); exit(1) }
    }
}

pub fn main_with(f: fn() -> Vec<Prop>) {
    let _ = PROPS.set(f);
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("worker") => worker(&a[2], &a[3], &a[4]),
        Some("case") => case(&a[2], &a[3], a[4].parse().unwrap()),
        Some("replay") => replay(&a[2]),
        Some("list") => { for p in props() { println!("{} {:?}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>()); } }
        _ => { eprintln!("usage: harness run ID | replay FILE | list"); exit(2) }
    }
}
