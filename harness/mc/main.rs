#![allow(clippy::all)]
#![allow(dead_code, non_snake_case)]
mod doc;
mod explore;
mod gen;
mod model;
mod props;
mod run;

use explore::*;
use props::{Prop, Tier};
use serde_json::{json, Value};
use std::process::{Command, ExitCode, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn arg(args: &[String], key: &str) -> Option<String> {
    args.iter()
        .position(|a| a == key)
        .and_then(|i| args.get(i + 1).cloned())
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&args),
        Some("worker") => worker_main(&args),
        Some("replay") => replay(&args),
        Some("raw") => raw(&args),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: mc run ID --tier quick|thorough --evidence F --replays DIR --known F | mc replay FILE");
            ExitCode::from(2)
        }
    }
}

fn tier_of(args: &[String]) -> Tier {
    match arg(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(2)
        })
}

/// Names of the open findings recorded for this property.
fn known_names(file: Option<String>, id: &str) -> Vec<(String, String)> {
    let f = match file {
        Some(f) => f,
        None => return vec![],
    };
    let text = match std::fs::read_to_string(&f) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: Value = serde_json::from_str(&text).expect("harness: known-findings file");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == id && x["status"] == "open")
                .map(|x| {
                    (
                        x["name"].as_str().unwrap_or("").to_string(),
                        x["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn write_replay(dir: &str, id: &str, tier: &str, f: &Found) -> String {
    std::fs::create_dir_all(dir).expect("harness: replay dir");
    let path = format!("{}/{}-{:016x}.json", dir, id, hash_of(&(&f.universe, &f.choices)));
    let v = json!({
        "property": id, "tier": tier, "universe": f.universe,
        "choices": f.choices, "message": f.message,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("harness: replay file");
    path
}

fn report(dir: &str, id: &str, tier: &str, f: &Found) -> String {
    let p = write_replay(dir, id, tier, f);
    println!("in universe {}, choices {:?}:\n{}", f.universe, f.choices, f.message);
    println!("VIOLATION property={} replay={}", id, p);
    p
}

/// Parent process: runs the exploration in a child, so that a crash of the code under test (stack
/// overflow, abort) is itself a finding.
fn supervise(args: &[String]) -> ExitCode {
    let id = args[2].clone();
    let exe = std::env::current_exe().unwrap();
    let slots_path = format!(
        "{}/mc-slots-{}",
        std::env::temp_dir().display(),
        std::process::id()
    );
    let mut cmd = Command::new(&exe);
    cmd.arg("worker").args(&args[2..]).args(["--slots", &slots_path]);
    let mut child = cmd.spawn().expect("harness: spawn worker");
    let status = child.wait().expect("harness: wait");
    let code = match status.code() {
        Some(c) if c != 134 => c,
        _ => {
            // killed by a signal: find the execution that does it
            eprintln!("worker died: {:?}; replaying what was being executed", status);
            let slots = Slots::open(&slots_path, 64);
            let uni = std::fs::read_to_string(format!("{}.universe", slots_path)).unwrap_or_default();
            let mut result = 4;
            for i in 0..64 {
                if let Some(prefix) = slots.get(i) {
                    let p: Vec<String> = prefix.iter().map(|c| c.to_string()).collect();
                    let st = Command::new(&exe)
                        .args(["raw", &id, &uni, &p.join(",")])
                        .args(["--tier", &arg(args, "--tier").unwrap_or_default()])
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .status()
                        .expect("harness: raw");
                    if st.code().map(|c| c >= 128).unwrap_or(true) || st.code() == Some(1) {
                        let f = Found {
                            universe: uni.clone(),
                            choices: prefix,
                            message: format!("the process dies ({:?}) while executing this case", st),
                        };
                        report(
                            &arg(args, "--replays").unwrap_or("replays".into()),
                            &id,
                            &arg(args, "--tier").unwrap_or_default(),
                            &f,
                        );
                        result = 1;
                        break;
                    }
                }
            }
            result
        }
    };
    let _ = std::fs::remove_file(&slots_path);
    let _ = std::fs::remove_file(format!("{}.universe", slots_path));
    ExitCode::from(code as u8)
}

fn worker_main(args: &[String]) -> ExitCode {
    install_panic_hook();
    let id = args[2].clone();
    let tier = tier_of(args);
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let replays = arg(args, "--replays").unwrap_or("replays".into());
    let evidence = arg(args, "--evidence");
    let slots_path = arg(args, "--slots").expect("harness: --slots");
    let prop = find(&id);
    let known = known_names(arg(args, "--known"), &id);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(60);
    let slots = Arc::new(Slots::open(&slots_path, 64));
    let t0 = Instant::now();
    let total = Duration::from_secs(
        arg(args, "--wall")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 420 } else { 3600 }),
    );
    let only = arg(args, "--universe");
    let mut unis = (prop.universes)(tier);
    if let Some(o) = &only {
        unis.retain(|u| u.name.contains(o.as_str()));
    }
    let mut all = Stats::default();
    let mut rows = vec![];
    let mut executions = 0u64;
    let mut complete = true;
    let mut found = None;
    for u in &unis {
        std::fs::write(format!("{}.universe", slots_path), &u.name).expect("harness: universe file");
        let left = total.saturating_sub(t0.elapsed());
        if left.is_zero() {
            complete = false;
            rows.push(json!({"universe": u.name, "bounds": u.describe, "executions": 0, "complete": false}));
            continue;
        }
        let lim = Limits {
            threads,
            wall: left,
            hang: Duration::from_secs(60),
            rss_bytes: 8 << 30,
            known: known.iter().map(|k| k.0.clone()).collect(),
        };
        let on_hang = |f: Found| {
            report(&replays, &id, tier_s, &f);
            let ev = json!({
                "property": id, "tier": tier_s, "seed": seed(), "level": prop.level,
                "coverage": {"states": executions + 1, "transitions": 0, "traces_validated_against_impl": executions,
                    "samples": [f.message]},
                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
            });
            if let Some(p) = &evidence {
                let _ = std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap());
            }
            std::process::exit(1);
        };
        let r = explore(u, &lim, &slots, &on_hang);
        executions += r.executions;
        complete &= r.complete;
        eprintln!(
            "{} {}: {} executions, {} skipped, {} distinct outcomes, {:.1}s{}",
            id,
            r.universe,
            r.executions,
            r.skipped,
            r.stats.outcomes.len(),
            r.wall,
            if r.complete { "" } else { " INCOMPLETE" }
        );
        rows.push(json!({
            "universe": r.universe, "bounds": r.describe, "executions": r.executions,
            "not_members": r.skipped, "complete": r.complete,
            "distinct_outcomes": r.stats.outcomes.len(), "outcomes_capped": r.stats.outcomes_capped,
            "runs_of_the_real_code": r.stats.get("runs"), "wall_s": r.wall,
        }));
        let mut s = r.stats;
        s.samples.truncate(2);
        all.merge(s);
        if let Some(f) = r.found {
            found = Some(f);
            break;
        }
    }
    for (name, what) in &known {
        if let Some(msg) = all.known.get(name.as_str()) {
            println!(
                "KNOWN-FINDING: property={} {} ({})",
                id,
                what,
                msg.lines().next().unwrap_or("")
            );
        }
    }
    let counters: serde_json::Map<String, Value> = all
        .counters
        .iter()
        .filter(|(k, _)| !matches!(**k, "states" | "transitions" | "runs"))
        .map(|(k, v)| (k.to_string(), json!(v)))
        .collect();
    let mut samples: Vec<Value> = all.samples.iter().take(12).map(|s| json!(s)).collect();
    if let Some(f) = &found {
        samples.insert(0, json!(f.message));
    }
    if samples.is_empty() {
        samples.push(json!(format!("{} executions; none sampled", executions)));
    }
    let coverage = json!({
        "states": all.get("states"),
        "transitions": all.get("transitions"),
        "traces_validated_against_impl": all.get("runs"),
        "executions": executions,
        "distinct_outcomes": all.outcomes.len(),
        "distinct_outcomes_capped": all.outcomes_capped,
        "exhaustive": complete,
        "universes": rows,
        "counters": counters,
        "samples": samples,
    });
    let ev = json!({
        "property": id, "tier": tier_s, "seed": seed(), "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if found.is_some() { 1 } else { 0 },
    });
    if let Some(p) = &evidence {
        if let Some(d) = std::path::Path::new(p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("harness: evidence");
    }
    match found {
        Some(f) => {
            report(&replays, &id, tier_s, &f);
            ExitCode::from(1)
        }
        None => {
            println!(
                "{}: held on {} executions ({} runs of the real code){} in {:.1}s",
                id,
                executions,
                all.get("runs"),
                if complete { ", exhaustive within bounds" } else { ", INCOMPLETE (time limit)" },
                t0.elapsed().as_secs_f64()
            );
            ExitCode::SUCCESS
        }
    }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn run_choices(id: &str, tier: Tier, uni: &str, choices: Vec<u16>) -> ExitCode {
    install_panic_hook();
    let prop = find(id);
    let mut us = (prop.universes)(tier);
    us.retain(|u| u.name == uni);
    let u = us.pop().unwrap_or_else(|| {
        eprintln!("no universe {}", uni);
        std::process::exit(2)
    });
    let mut st = Stats::default();
    let body = u.body.clone();
    let r = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let (v, _) = run_one(&body, choices, &mut st);
            v
        })
        .unwrap()
        .join()
        .expect("harness: replay");
    match r {
        Verdict::Ok => {
            println!("held");
            ExitCode::SUCCESS
        }
        Verdict::Skip => {
            println!("not a member of the universe");
            ExitCode::SUCCESS
        }
        Verdict::Bad(m) | Verdict::BadNamed(_, m) => {
            println!("{}", m);
            ExitCode::from(1)
        }
    }
}

fn raw(args: &[String]) -> ExitCode {
    let choices = args[4]
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("harness: choices"))
        .collect();
    run_choices(&args[2], tier_of(args), &args[3], choices)
}

fn replay(args: &[String]) -> ExitCode {
    let text = std::fs::read_to_string(&args[2]).expect("harness: replay file");
    let v: Value = serde_json::from_str(&text).expect("harness: replay json");
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let choices = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| c.as_u64().unwrap() as u16)
        .collect();
    run_choices(
        v["property"].as_str().unwrap(),
        tier,
        v["universe"].as_str().unwrap(),
        choices,
    )
}
