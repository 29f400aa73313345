//! Command line: run one property's exploration, or replay a trace.
use crate::engine::{self, Explorer, Space};
use crate::{report, util};
use std::time::{Duration, Instant};

pub struct Check {
    pub spaces: Vec<Space>,
    pub rule: String,
    pub assumptions: Vec<String>,
}

/// Exploration tier.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn of<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

fn known_findings(dir: &str, id: &str) -> Vec<(String, String)> {
    // Lines: "finding: property=<id> key=<key> <description>"
    let text = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.trim().strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let d = it.next().unwrap_or("");
            if p == format!("property={id}") {
                if let Some(k) = k.strip_prefix("key=") {
                    v.push((k.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

pub fn main(check: fn(&str, Tier) -> Option<Check>) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier_s = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let tier = if tier_s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    report::RUN.set(report::Run { id: id.clone(), tier: tier_s.clone(), dir: dir.clone() }).ok();
    engine::install_panic_hook();

    let Some(mut check) = check(&id, tier) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if let Ok(only) = std::env::var("NKMC_SPACE") {
        check.spaces.retain(|s| s.name.contains(&only));
    }
    let known = known_findings(&dir, &id);
    let keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();

    if args.get(3).map(|s| s == "--replay").unwrap_or(false) {
        let text = std::fs::read_to_string(&args[4]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default();
        let sp = get("space:");
        let choices: Vec<u32> = get("choices:").split(',').filter_map(|s| s.trim().parse().ok()).collect();
        let sp = check.spaces.iter().find(|s| s.name == sp).expect("space");
        let (r, log) = engine::replay(sp, &choices, &keys);
        for (i, l) in log.iter().enumerate() {
            println!("{i:3}. {l}");
        }
        match r {
            Ok(()) => println!("replay: no violation"),
            Err(m) => {
                println!("{m}");
                println!("VIOLATION property={id} replay={}", args[4]);
                std::process::exit(1);
            }
        }
        return;
    }

    let cap: u64 = std::env::var("NKMC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.of(400, 780));
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let ex = Explorer { known_keys: keys, deadline: t0 + Duration::from_secs(cap), threads };
    match ex.run(&check.spaces) {
        Err(m) => {
            util::Scratch::cleanup();
            eprintln!("internal error: {m}");
            std::process::exit(3);
        }
        Ok((stats, found)) => {
            util::Scratch::cleanup();
            let wall = t0.elapsed().as_secs_f64();
            report::write_evidence(&stats, wall, found.is_some() as usize, &check.rule, &check.assumptions);
            println!(
                "{id} {tier_s}: {} executions, {} distinct states, {} transitions, {} non-trivial, exhaustive={} in {:.1}s",
                stats.execs, stats.states, stats.steps, stats.nontrivial, stats.exhausted, wall
            );
            for (k, n, d) in &stats.known_hits {
                let desc = known.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
                println!("KNOWN-FINDING: property={id} {desc} [{k}: {n} executions, e.g. {d}]");
            }
            if let Some(f) = found {
                let path = report::write_replay(&f);
                println!("{}", f.message);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    }
}
