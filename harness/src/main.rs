//! Property-based checks of many-things/cw-hyperlane: `check <ID>` and `replay <ID> <file>`.
#[macro_use]
mod engine;
mod chain;
mod codes;
mod props;
mod refs;
mod world;

use engine::{install_panic_hook, run_sub, run_tape, Failure, SubReport};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::Instant;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Listed findings: lines `finding: property=<id> sub=<sub> match=<text in the message> :: <what fails>`.
fn findings(id: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (head, what) = l.split_once(" :: ")?;
            let head = head.strip_prefix(&format!("property={id} "))?;
            let head = head.strip_prefix("sub=")?;
            let (sub, m) = head.split_once(" match=")?;
            Some((sub.to_string(), m.to_string(), what.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, f: &Failure) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}.json", f.sub));
    let v = json!({
        "property": id, "sub": f.sub, "tape": f.tape, "message": f.message, "log": f.log,
        "case": f.index, "shrink_runs": f.shrink_runs,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("harness: write replay");
    path
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: hpl-verif check <ID> [--tier quick|thorough] [--seed N] [--sub NAME] [--cases N]\n       hpl-verif replay <ID> <file>\n       hpl-verif list");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}({}/{})", s.name, s.cases.0, s.cases.1)).collect::<Vec<_>>().join(" "));
            }
        }
        Some("check") => {
            let id = args.get(2).unwrap_or_else(|| usage());
            let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
            let tier = opt("--tier").unwrap_or("quick".into());
            if tier != "quick" && tier != "thorough" {
                usage();
            }
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let only = opt("--sub");
            let cases = opt("--cases").and_then(|s| s.parse().ok());
            std::process::exit(check(id, &tier, seed, only, cases))
        }
        Some("replay") => {
            let (id, file) = (args.get(2).unwrap_or_else(|| usage()), args.get(3).unwrap_or_else(|| usage()));
            std::process::exit(replay(id, Path::new(file)))
        }
        _ => usage(),
    }
}

fn replay(id: &str, file: &Path) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("harness: read replay")).expect("harness: parse replay");
    let tape: Vec<u64> = v["tape"].as_array().expect("harness: tape").iter().map(|v| v.as_u64().unwrap()).collect();
    let props = props::all();
    let p = props.iter().find(|p| p.id == id).expect("harness: unknown property");
    let s = p.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("harness: unknown sub");
    let run = s.run;
    let (r, log) = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let (r, mut g) = run_tape(run, tape, true);
            (r, engine::take_log(&mut g))
        })
        .unwrap()
        .join()
        .unwrap();
    for l in log {
        println!("  {l}");
    }
    match r {
        Ok(()) => {
            println!("replay of {} passes", file.display());
            0
        }
        Err(e) => {
            println!("{e}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
    }
}

fn check(id: &str, tier: &str, seed: u64, only: Option<String>, cases: Option<usize>) -> i32 {
    let start = Instant::now();
    let props = props::all();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let known = findings(id);
    let mut reports: Vec<SubReport> = vec![];
    let mut failures: Vec<Failure> = vec![];
    for s in &p.subs {
        if only.as_ref().map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let n = cases.unwrap_or(if tier == "quick" { s.cases.0 } else { s.cases.1 });
        let (rep, f) = run_sub(id, s, seed, n);
        println!("{id} {}: {} cases, {} distinct non-trivial, {:.1}s{}", rep.name, rep.evaluations, rep.distinct_nontrivial, rep.wall, if f.is_some() { " FAILED" } else { "" });
        reports.push(rep);
        failures.extend(f);
    }
    let mut bad = 0;
    for f in &failures {
        if let Some(k) = known.iter().find(|k| k.0 == f.sub && f.message.contains(&k.1)) {
            println!("KNOWN-FINDING: property={id} {}", k.2);
            continue;
        }
        bad += 1;
        let path = write_replay(id, f);
        println!("--- {id} {} case {} (shrunk in {} runs): {}", f.sub, f.index, f.shrink_runs, f.message);
        for l in &f.log {
            println!("    {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let labels: serde_json::Map<String, serde_json::Value> = reports
        .iter()
        .map(|r| {
            let l: serde_json::Map<String, serde_json::Value> = r.labels.iter().map(|(k, (c, n))| (k.to_string(), json!({"cases": c, "occurrences": n}))).collect();
            (r.name.to_string(), json!(l))
        })
        .collect();
    let samples: Vec<serde_json::Value> = reports.iter().flat_map(|r| r.samples.iter().take(2).map(|s| json!({"check": r.name, "case": s}))).collect();
    let rule = format!(
        "Each case is a tape of draws of a seeded ChaCha8 generator (one stream per case index). {}",
        reports.iter().map(|r| format!("{}: non-trivial = {}", r.name, r.rule)).collect::<Vec<_>>().join("; ")
    );
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
            "rule": rule,
            "samples": samples,
            "checks": reports.iter().map(|r| json!({"name": r.name, "evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial, "wall_s": r.wall})).collect::<Vec<_>>(),
            "classes": labels,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": bad,
    });
    if only.is_none() {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("harness: write evidence");
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        for r in &reports {
            for (k, (c, n)) in &r.labels {
                println!("   {} {k}: {c} cases ({:.1}%), {n} times", r.name, *c as f64 * 100.0 / r.evaluations as f64);
            }
        }
    }
    if reports.iter().any(|r| r.evaluations > 0 && r.distinct_nontrivial == 0) && failures.is_empty() {
        eprintln!("HARNESS ERROR: a check generated no non-trivial case");
        return 3;
    }
    i32::from(bad > 0)
}
