//! Case runner: every case of a suite is a function of (suite, seed, index), so a replay file
//! needs nothing else. Cases run on all cores; a panic of the code under test is a failure.
use crate::rng::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::os::unix::fs::FileExt;

/// a case that gives no result in this time counts as a failure (cases take milliseconds)
pub const HANG_S: u64 = 60;

pub struct Log { pub lines: Vec<String>, pub nontrivial: bool }
impl Log {
    pub fn say(&mut self, s: impl Into<String>) { self.lines.push(s.into()); }
}
pub type CaseFn = fn(&mut Rng, u64, &mut Log) -> Result<(), String>;
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub rule: &'static str,
    /// number of cases for quick and thorough; an enumerated suite has the same number in both
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
    pub case: CaseFn,
}
pub struct Failure { pub suite: &'static str, pub index: u64, pub seed: u64, pub msg: String, pub lines: Vec<String> }
#[derive(Default)]
pub struct Outcome { pub evals: u64, pub distinct: u64, pub samples: Vec<String>, pub failures: Vec<Failure>, pub completed: bool, pub wall: f64 }

pub fn case_rng(seed: u64, name: &str, index: u64) -> Rng {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (seed, name, index).hash(&mut h);
    Rng::new(h.finish())
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_empty() { *p = format!("{i}").replace('\n', " "); } })));
}

pub fn one(s: &Suite, seed: u64, index: u64) -> (Log, Result<(), String>) {
    let mut log = Log { lines: vec![], nontrivial: false };
    let mut r = case_rng(seed, s.name, index);
    PANIC.with(|p| p.borrow_mut().clear());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.case)(&mut r, index, &mut log)));
    let res = match res {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (log, res)
}

pub fn run(s: &Suite, seed: u64, thorough: bool, limit_s: f64) -> Outcome {
    let n = if thorough { s.thorough } else { s.quick };
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let seen = Mutex::new(HashSet::<u64>::new());
    let fails = Mutex::new(Vec::<Failure>::new());
    let samples = Mutex::new(Vec::<(u64, String)>::new());
    let done = AtomicU64::new(0);
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    // where each worker is, for the driver (after a crash) and for the watchdog
    let state = std::env::var("TD_STATE").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).ok());
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
    let running = AtomicU64::new(workers as u64);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while running.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let now = t0.elapsed().as_secs();
                for (i, t) in &busy {
                    let since = t.load(Ordering::Relaxed);
                    if since != u64::MAX && now > since.saturating_add(HANG_S) {
                        let idx = i.load(Ordering::Relaxed);
                        println!("{}", serde_json::json!([{"suite": s.name, "rule": s.rule, "exhaustive": false, "completed": false, "evaluations": idx, "distinct_nontrivial": 0, "samples": [], "wall_s": now,
                            "failures": [{"suite": s.name, "seed": seed, "index": idx, "message": format!("no result after {HANG_S} s"), "steps": []}]}]));
                        std::process::exit(0);
                    }
                }
            }
        });
        for w in 0..workers {
            let (busy, state, running, next, stop, timed_out, seen, fails, samples, done) = (&busy[w], &state, &running, &next, &stop, &timed_out, &seen, &fails, &samples, &done);
            sc.spawn(move || {
                let mut local = HashSet::new();
                let mut cnt = 0;
                loop {
                    if stop.load(Ordering::Relaxed) { break; }
                    if t0.elapsed().as_secs_f64() > limit_s { timed_out.store(true, Ordering::Relaxed); break; }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n { break; }
                    busy.0.store(i, Ordering::Relaxed);
                    busy.1.store(t0.elapsed().as_secs(), Ordering::Relaxed);
                    if let Some(f) = state { let _ = f.write_at(format!("{:>20} {:>30}\n", i, s.name).as_bytes(), (w * 52) as u64); }
                    let (log, res) = one(s, seed, i);
                    busy.1.store(u64::MAX, Ordering::Relaxed);
                    cnt += 1;
                    if log.nontrivial {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        log.lines.hash(&mut h);
                        if local.insert(h.finish()) && i % 997 == 5 {
                            let mut v = samples.lock().unwrap();
                            if v.len() < 4 { v.push((i, log.lines.join("; ").chars().take(600).collect())); }
                        }
                    }
                    if let Err(m) = res {
                        let mut f = fails.lock().unwrap();
                        f.push(Failure { suite: s.name, index: i, seed, msg: m, lines: log.lines });
                        if f.len() >= 40 { stop.store(true, Ordering::Relaxed); }
                    }
                }
                done.fetch_add(cnt, Ordering::Relaxed);
                seen.lock().unwrap().extend(local);
                running.fetch_sub(1, Ordering::Relaxed);
            });
        }
    });
    let mut failures = fails.into_inner().unwrap();
    failures.sort_by_key(|f| (f.lines.len(), f.lines.iter().map(|l| l.len()).sum::<usize>(), f.index));
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    Outcome {
        evals: done.load(Ordering::Relaxed),
        distinct: seen.lock().unwrap().len() as u64,
        samples: sm.into_iter().map(|x| format!("{}#{}: {}", s.name, x.0, x.1)).collect(),
        failures,
        completed: !timed_out.load(Ordering::Relaxed),
        wall: t0.elapsed().as_secs_f64(),
    }
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
