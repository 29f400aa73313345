//! Stateless explicit-state exploration.
//!
//! A check is a *choice program*: a deterministic function which asks the engine to `pick` among `n` alternatives
//! wherever the environment (schedule, input, crash point, clock) is free, and runs the real code accordingly.
//! The engine enumerates every choice sequence (depth-first, split dynamically over all cores) and reports the first
//! execution on which the program returns an error, panics inside the code under test, or does not terminate.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Longest time a single execution may take before it is reported as a hang.
const HANG: Duration = Duration::from_secs(60);
const SHARDS: usize = 64;
const MAX_DIGESTS_PER_SHARD: usize = 400_000;

pub type Res<T = ()> = Result<T, String>;
pub type Body = Arc<dyn Fn(&mut Ch) -> Res + Send + Sync>;

#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub desc: String,
    pub body: Body,
}

pub fn space(
    name: impl Into<String>,
    desc: impl Into<String>,
    body: impl Fn(&mut Ch) -> Res + Send + Sync + 'static,
) -> Space {
    Space {
        name: name.into(),
        desc: desc.into(),
        body: Arc::new(body),
    }
}

struct Shared {
    digests: Vec<Mutex<HashSet<u64>>>,
    /// Digest -> largest remaining depth explored from there (for state pruning).
    visited: Vec<Mutex<HashMap<u64, u32>>>,
    known_keys: Vec<String>,
    known_hits: Mutex<HashMap<String, (u64, String)>>,
}

/// Choice context handed to a choice program.
pub struct Ch {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    live: Arc<Mutex<Vec<u32>>>,
    recording: bool,
    log: Vec<String>,
    steps: u64,
    nontrivial: bool,
    pruned: bool,
    shared: Arc<Shared>,
}

impl Ch {
    /// Choose one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.trace.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!(
            (c as usize) < n,
            "engine: non-deterministic choice program (choice {} of {} at {})",
            c,
            n,
            i
        );
        self.trace.push((c, n as u32));
        self.live.lock().unwrap().push(c);
        c as usize
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    /// Record a human-readable step. Only evaluated when a trace is being recorded.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.recording {
            let s = f();
            self.log.push(s);
        }
    }
    /// Count a transition of the real implementation.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// Mark this execution as non-trivial (it exercised the property's antecedent).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Record the digest of a state that was reached and checked.
    pub fn state<T: Hash>(&mut self, t: &T) {
        let h = digest(t);
        let mut s = self.shared.digests[h as usize % SHARDS].lock().unwrap();
        if s.len() < MAX_DIGESTS_PER_SHARD {
            s.insert(h);
        }
    }
    /// Returns `true` if a state with this digest was already explored at least `remaining` steps deep.
    pub fn seen<T: Hash>(&mut self, t: &T, remaining: u32) -> bool {
        if self.recording {
            return false;
        }
        let h = digest(t);
        let mut v = self.shared.visited[h as usize % SHARDS].lock().unwrap();
        match v.get_mut(&h) {
            Some(r) if *r >= remaining => {
                self.pruned = true;
                true
            }
            Some(r) => {
                *r = remaining;
                false
            }
            None => {
                v.insert(h, remaining);
                false
            }
        }
    }
    /// Is this finding listed in the known-findings file? If so, count it and report `true`.
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> String) -> bool {
        if self.shared.known_keys.iter().any(|k| k == key) {
            let mut h = self.shared.known_hits.lock().unwrap();
            let e = h.entry(key.to_string()).or_insert_with(|| (0, detail()));
            e.0 += 1;
            true
        } else {
            false
        }
    }
    pub fn is_recording(&self) -> bool {
        self.recording
    }
}

pub fn digest<T: Hash>(t: &T) -> u64 {
    // FNV-1a style; stable across runs.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0 ^ (self.0 >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        if !QUIET.with(|q| *q.borrow()) {
            default(info);
        }
    }));
}

/// Was the panic raised by the harness itself rather than the code under test?
fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/")
}

enum Outcome {
    Ok,
    Violation(String),
    Internal(String),
}

fn run_one(body: &Body, ch: &mut Ch) -> Outcome {
    QUIET.with(|q| *q.borrow_mut() = true);
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| body(ch)));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness(&loc) && !msg.starts_with("node: ") {
                Outcome::Internal(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Violation(format!("panic in the code under test at {loc}: {msg}"))
            }
        }
    }
}

/// Catch a panic of the code under test inside a choice program. `Err` carries message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().clone())
                .unwrap_or_default();
            if is_harness(&loc) {
                std::panic::resume_unwind(e);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

pub struct Found {
    pub space: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub choices: u64,
    pub nontrivial: u64,
    pub pruned: u64,
    pub states: u64,
    pub max_depth: u64,
    pub exhausted: bool,
    pub samples: Vec<(String, Vec<String>)>,
    pub per_space: Vec<(String, String, u64, bool)>,
    pub known_hits: Vec<(String, u64, String)>,
}

struct Queue {
    work: Vec<Vec<u32>>,
    idle: usize,
    done: bool,
}

pub struct Explorer {
    pub known_keys: Vec<String>,
    pub deadline: Instant,
    pub threads: usize,
}

fn new_shared(known: &[String]) -> Arc<Shared> {
    Arc::new(Shared {
        digests: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
        visited: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect(),
        known_keys: known.to_vec(),
        known_hits: Mutex::new(HashMap::new()),
    })
}

fn new_ch(prefix: Vec<u32>, live: Arc<Mutex<Vec<u32>>>, shared: Arc<Shared>, rec: bool) -> Ch {
    live.lock().unwrap().clear();
    Ch {
        trace: Vec::with_capacity(prefix.len() + 8),
        prefix,
        live,
        recording: rec,
        log: vec![],
        steps: 0,
        nontrivial: false,
        pruned: false,
        shared,
    }
}

/// Re-run one choice sequence with recording on. Returns the outcome message and the log.
pub fn replay(space: &Space, choices: &[u32], known: &[String]) -> (Result<(), String>, Vec<String>) {
    let shared = new_shared(known);
    let mut ch = new_ch(choices.to_vec(), Default::default(), shared, true);
    let o = run_one(&space.body, &mut ch);
    let log = std::mem::take(&mut ch.log);
    match o {
        Outcome::Ok => (Ok(()), log),
        Outcome::Violation(m) => (Err(m), log),
        Outcome::Internal(m) => (Err(format!("INTERNAL {m}")), log),
    }
}

impl Explorer {
    pub fn run(&self, spaces: &[Space]) -> Result<(Stats, Option<Found>), String> {
        let mut stats = Stats {
            exhausted: true,
            ..Stats::default()
        };
        let mut states = 0;
        for sp in spaces {
            let t0 = Instant::now();
            let shared = new_shared(&self.known_keys);
            let (found, exhausted, execs) = self.run_space(sp, &shared, &mut stats)?;
            states += shared
                .digests
                .iter()
                .map(|s| s.lock().unwrap().len() as u64)
                .sum::<u64>();
            for (k, (n, d)) in shared.known_hits.lock().unwrap().iter() {
                if let Some(e) = stats.known_hits.iter_mut().find(|(kk, _, _)| kk == k) {
                    e.1 += n;
                } else {
                    stats.known_hits.push((k.clone(), *n, d.clone()));
                }
            }
            stats
                .per_space
                .push((sp.name.clone(), sp.desc.clone(), execs, exhausted));
            stats.exhausted &= exhausted;
            eprintln!(
                "  space {:<28} {:>10} executions {:>6.1}s{}",
                sp.name,
                execs,
                t0.elapsed().as_secs_f64(),
                if exhausted { "" } else { "  (time cap reached, NOT exhausted)" }
            );
            if found.is_some() {
                stats.states = states;
                return Ok((stats, found));
            }
        }
        stats.states = states;
        Ok((stats, None))
    }

    fn run_space(
        &self,
        sp: &Space,
        shared: &Arc<Shared>,
        stats: &mut Stats,
    ) -> Result<(Option<Found>, bool, u64), String> {
        // Samples: record the first execution.
        {
            let (r, log) = replay(sp, &[], &self.known_keys);
            if r.is_ok() && stats.samples.len() < 8 {
                stats.samples.push((sp.name.clone(), log));
            }
        }
        let queue = Mutex::new(Queue {
            work: vec![vec![]],
            idle: 0,
            done: false,
        });
        let cv = Condvar::new();
        let stop = AtomicBool::new(false);
        let timed_out = AtomicBool::new(false);
        let found: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
        let internal: Mutex<Option<String>> = Mutex::new(None);
        let hungry = AtomicBool::new(true);
        let n = self.threads;
        let epoch = Instant::now();
        let starts: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
        let lives: Vec<Arc<Mutex<Vec<u32>>>> = (0..n).map(|_| Default::default()).collect();
        let totals = Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64, 0u64));
        let finished = AtomicU64::new(0);

        std::thread::scope(|s| {
            for w in 0..n {
                let (queue, cv, stop, found, internal, hungry, totals, timed_out) = (
                    &queue, &cv, &stop, &found, &internal, &hungry, &totals, &timed_out,
                );
                let (start, live, finished) = (&starts[w], lives[w].clone(), &finished);
                let shared = shared.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
                        'outer: loop {
                            let base = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if q.done || stop.load(SeqCst) {
                                        break 'outer;
                                    }
                                    if let Some(p) = q.work.pop() {
                                        hungry.store(q.work.len() < n, SeqCst);
                                        break p;
                                    }
                                    hungry.store(true, SeqCst);
                                    q.idle += 1;
                                    if q.idle == n {
                                        q.done = true;
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    q = cv.wait(q).unwrap();
                                    q.idle -= 1;
                                }
                            };
                            let mut floor = base.len();
                            let mut prefix = base;
                            loop {
                                if stop.load(SeqCst) {
                                    break 'outer;
                                }
                                if Instant::now() >= self.deadline {
                                    timed_out.store(true, SeqCst);
                                    stop.store(true, SeqCst);
                                    cv.notify_all();
                                    break 'outer;
                                }
                                let mut ch =
                                    new_ch(prefix, live.clone(), shared.clone(), false);
                                start.store(epoch.elapsed().as_millis() as u64, SeqCst);
                                let o = run_one(&sp.body, &mut ch);
                                start.store(u64::MAX, SeqCst);
                                t.0 += 1;
                                t.1 += ch.steps;
                                t.2 += ch.trace.len() as u64;
                                t.3 += ch.nontrivial as u64;
                                t.4 += ch.pruned as u64;
                                t.5 = t.5.max(ch.trace.len() as u64);
                                match o {
                                    Outcome::Ok => {}
                                    Outcome::Violation(m) => {
                                        let mut f = found.lock().unwrap();
                                        if f.is_none() {
                                            let c = ch.trace.iter().map(|x| x.0).collect();
                                            *f = Some((c, m));
                                        }
                                        stop.store(true, SeqCst);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    Outcome::Internal(m) => {
                                        *internal.lock().unwrap() = Some(format!(
                                            "{m} [choices {:?}]",
                                            ch.trace.iter().map(|x| x.0).collect::<Vec<_>>()
                                        ));
                                        stop.store(true, SeqCst);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                }
                                let mut trace = ch.trace;
                                if hungry.load(SeqCst) {
                                    // Give away the shallowest open alternatives of this subtree.
                                    if let Some(i) = (floor..trace.len())
                                        .find(|&i| trace[i].0 + 1 < trace[i].1)
                                    {
                                        let mut q = queue.lock().unwrap();
                                        for c in (trace[i].0 + 1)..trace[i].1 {
                                            let mut p: Vec<u32> =
                                                trace[..i].iter().map(|x| x.0).collect();
                                            p.push(c);
                                            q.work.push(p);
                                        }
                                        hungry.store(q.work.len() < n, SeqCst);
                                        cv.notify_all();
                                        floor = i + 1;
                                    }
                                }
                                // Backtrack.
                                while let Some(&(c, m)) = trace.last() {
                                    if trace.len() <= floor {
                                        trace.clear();
                                        break;
                                    }
                                    if c + 1 < m {
                                        break;
                                    }
                                    trace.pop();
                                }
                                if trace.is_empty() {
                                    break;
                                }
                                prefix = trace.iter().map(|x| x.0).collect();
                                *prefix.last_mut().unwrap() += 1;
                            }
                        }
                        let mut g = totals.lock().unwrap();
                        g.0 += t.0;
                        g.1 += t.1;
                        g.2 += t.2;
                        g.3 += t.3;
                        g.4 += t.4;
                        g.5 = g.5.max(t.5);
                        drop(g);
                        finished.fetch_add(1, SeqCst);
                    })
                    .expect("spawn");
            }
            // Watchdog.
            loop {
                if finished.load(SeqCst) as usize == n {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
                for w in 0..n {
                    let st = starts[w].load(SeqCst);
                    if st != u64::MAX
                        && (epoch.elapsed().as_millis() as u64).saturating_sub(st)
                            > HANG.as_millis() as u64
                    {
                        let c = lives[w].lock().map(|g| g.clone()).unwrap_or_default();
                        crate::report::hang_exit(&sp.name, &c);
                    }
                }
            }
        });
        if let Some(m) = internal.into_inner().unwrap() {
            return Err(m);
        }
        let t = totals.into_inner().unwrap();
        stats.execs += t.0;
        stats.steps += t.1;
        stats.choices += t.2;
        stats.nontrivial += t.3;
        stats.pruned += t.4;
        stats.max_depth = stats.max_depth.max(t.5);
        let exhausted = !timed_out.load(SeqCst);
        let found = found.into_inner().unwrap().map(|(mut choices, message)| {
            // Drop trailing zeros: they are implied.
            while choices.last() == Some(&0) {
                choices.pop();
            }
            let (_, log) = replay(sp, &choices, &self.known_keys);
            Found {
                space: sp.name.clone(),
                choices,
                message,
                log,
            }
        });
        Ok((found, exhausted, t.0))
    }
}
