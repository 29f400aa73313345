//! Evidence files, violation lines and replay artefacts.
use crate::engine::{Found, Stats};
use std::sync::OnceLock;

pub struct Run {
    pub id: String,
    pub tier: String,
    pub dir: String,
}
pub static RUN: OnceLock<Run> = OnceLock::new();

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(f: &Found) -> String {
    let r = RUN.get().unwrap();
    let dir = format!("{}/evidence/replay", r.dir);
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{}.txt", r.id);
    let mut s = String::new();
    s.push_str(&format!("property: {}\nspace: {}\ntier: {}\nchoices: {}\nmessage: {}\n\n", r.id, f.space, r.tier,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), f.message.replace('\n', " ")));
    s.push_str("trace:\n");
    for (i, l) in f.log.iter().enumerate() {
        s.push_str(&format!("  {:3}. {}\n", i, l));
    }
    s.push_str(&format!("\nreplay with: bash /verif/run.sh {} {} --replay {}\n", r.id, r.tier, path));
    std::fs::write(&path, s).ok();
    path
}

pub fn hang_exit(space: &str, choices: &[u32]) -> ! {
    crate::util::Scratch::cleanup();
    let r = RUN.get().unwrap();
    let f = Found {
        space: space.into(),
        choices: choices.to_vec(),
        message: "execution did not terminate (hang)".into(),
        log: vec!["(no log: the execution hangs)".into()],
    };
    let path = write_replay(&f);
    println!("{}", f.message);
    println!("VIOLATION property={} replay={}", r.id, path);
    std::process::exit(1);
}

pub fn write_evidence(stats: &Stats, wall: f64, violations: usize, bounds: &str, assumptions: &[String]) {
    let r = RUN.get().unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let samples = stats.samples.iter().map(|(n, l)| {
        format!("{{\"space\":{},\"trace\":[{}]}}", esc(n), l.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
    }).collect::<Vec<_>>().join(",");
    let spaces = stats.per_space.iter().map(|(n, d, e, x)| {
        format!("{{\"name\":{},\"bounds\":{},\"executions\":{},\"exhausted\":{}}}", esc(n), esc(d), e, x)
    }).collect::<Vec<_>>().join(",");
    let known = stats.known_hits.iter().map(|(k, n, d)| {
        format!("{{\"key\":{},\"executions\":{},\"example\":{}}}", esc(k), n, esc(d))
    }).collect::<Vec<_>>().join(",");
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"nontrivial_executions\": {},\n  \"choice_points\": {},\n  \"max_choice_depth\": {},\n  \"pruned_executions\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"spaces\": [{}],\n  \"known_findings_hit\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(&r.id), esc(&r.tier), seed, stats.states, stats.steps, stats.execs, stats.nontrivial, stats.choices,
        stats.max_depth, stats.pruned, stats.exhausted, esc(bounds), spaces, known, samples,
        assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), wall, violations
    );
    let dir = format!("{}/evidence", r.dir);
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{}.json", r.id), s).expect("evidence file");
}
