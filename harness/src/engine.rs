//! Case generation, sharding, shrinking, replay files, known findings and evidence.
//!
//! Every random choice comes from proptest's ChaCha generator seeded by (VERIF_SEED, campaign, shard); nothing else
//! (no clock, no ambient RNG) influences which cases are tried.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub const SHARDS: u64 = 8;

#[derive(Debug, Clone, PartialEq)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail(msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err($crate::engine::Fail(format!($($a)+))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{ let (a, b) = (&$a, &$b); if a != b {
        return Err($crate::engine::Fail(format!("{}\n   got: {}\n  want: {}", format!($($m)+), $crate::engine::clip(&format!("{:?}", a)), $crate::engine::clip(&format!("{:?}", b))))); } }};
}
pub fn clip(s: &str) -> String {
    if s.len() <= 3000 { return s.to_string(); }
    let mut n = 3000;
    while !s.is_char_boundary(n) { n -= 1 }
    format!("{}… ({} bytes)", &s[..n], s.len())
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} (at {})", clip(&msg), loc));
    }));
}

/// Runs code under test; a panic becomes a failure of the case.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(Fail(format!("{what} aborted: {}", LAST_PANIC.with(|p| p.borrow().clone())))),
    }
}

/// What a case observed about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    classes: Vec<String>,
    pub sample: Option<String>,
}
impl Obs {
    pub fn class(&mut self, c: impl Into<String>) { self.classes.push(c.into()) }
    pub fn class_if(&mut self, b: bool, c: &str) { if b { self.classes.push(c.into()) } }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Replay { pub property: String, pub campaign: String, pub seed: u64, pub message: String, pub rendered: String, pub case: serde_json::Value }

#[derive(Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<(String, String)>, // replay path, message
    pub known: Vec<String>,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<serde_json::Value>,
    pub campaigns: Vec<serde_json::Value>,
    pub replay_failed: Option<String>,
    pub replay_found: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub pid: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub replay: Option<Replay>,
    pub trace: Option<PathBuf>,
    pub only: Option<String>,
    pub scale: f64,
    pub outcome_path: Option<PathBuf>,
    known: Vec<(String, String)>, // finding id, text
    out: Mutex<Outcome>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

struct Shared { evals: AtomicU64, nontriv: Mutex<HashSet<u64>>, classes: Mutex<BTreeMap<String, u64>>, samples: Mutex<Vec<(u64, u64, String)>>, stop: AtomicBool, failures: Mutex<Vec<(u64, Replay)>>, running: Vec<Mutex<Option<(CpuClock, serde_json::Value)>>>, done: AtomicBool }

/// A case that takes a few milliseconds and has used this much processor time is not going to end.
pub const CASE_LIMIT_S: u64 = 100;

/// The processor time one thread used since the clock was made: independent of how busy the machine is.
#[derive(Clone, Copy)]
pub struct CpuClock(libc::clockid_t, i64);
impl CpuClock {
    pub fn start() -> CpuClock {
        let mut id: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id); }
        let mut c = CpuClock(id, 0);
        c.1 = c.now();
        c
    }
    fn now(&self) -> i64 { let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 }; unsafe { libc::clock_gettime(self.0, &mut t); } t.tv_sec }
    pub fn seconds(&self) -> u64 { (self.now() - self.1).max(0) as u64 }
}

impl Ctx {
    pub fn new(pid: &str, tier: Tier, seed: u64, root: &Path) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for l in t.lines() {
                // known: property=P01 id=K01 <what fails>
                if let Some(rest) = l.strip_prefix("known: ") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, i, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == format!("property={pid}") { known.push((i.trim_start_matches("id=").to_string(), d.to_string())); }
                }
            }
        }
        Ctx { pid: pid.into(), tier, seed, root: root.into(), replay: None, trace: None, only: None, scale: 1.0, outcome_path: None, known, out: Mutex::new(Outcome::default()) }
    }
    pub fn into_outcome(self) -> Outcome { self.out.into_inner().unwrap() }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        ((n as f64 * self.scale) as u64).max(1)
    }

    fn write_replay(&self, r: &Replay) -> String {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{:016x}.json", r.property, r.campaign, fnv(r.case.to_string().as_bytes())));
        let _ = std::fs::write(&p, serde_json::to_string_pretty(r).unwrap());
        p.display().to_string()
    }

    /// Ends the process: a case is stuck and cannot be interrupted.
    fn give_up(&self, name: &str, case: serde_json::Value, path: &Path) {
        let m = format!("the case did not end within {CASE_LIMIT_S} s of processor time");
        let r = Replay { property: self.pid.clone(), campaign: name.into(), seed: self.seed, message: m.clone(), rendered: String::new(), case };
        let mut out = self.out.lock().unwrap();
        if self.replay.is_some() { out.replay_found = true; out.replay_failed = Some(m); }
        else { let p = self.write_replay(&r); out.violations.push((p, m)); }
        std::fs::write(path, serde_json::to_string(&*out).unwrap()).unwrap();
        std::process::exit(0);
    }

    /// A fixed input. Listed in known_findings.txt: reported as a known finding while it fails. Not listed: a violation.
    pub fn probe(&self, id: &str, input: &str, f: impl FnOnce() -> Res) {
        let name = format!("probe-{id}");
        if let Some(r) = &self.replay { if r.campaign != name { return; } }
        if let Some(o) = &self.only { if *o != name { return; } }
        let res = match guard("probe", f) { Ok(r) => r, Err(e) => Err(e) };
        let mut out = self.out.lock().unwrap();
        out.evaluations += 1;
        if self.replay.is_some() { out.replay_found = true; if let Err(e) = &res { out.replay_failed = Some(e.0.clone()); } return; }
        if let Err(Fail(m)) = res {
            if let Some((_, d)) = self.known.iter().find(|(k, _)| k == id) {
                out.known.push(format!("KNOWN-FINDING: property={} {} {}", self.pid, id, d));
            } else {
                let r = Replay { property: self.pid.clone(), campaign: name, seed: self.seed, message: m.clone(), rendered: input.into(), case: serde_json::Value::String(input.into()) };
                let p = self.write_replay(&r);
                out.violations.push((p, m));
            }
        }
    }

    pub fn campaign<T, S>(&self, name: &str, quick: u64, thorough: u64, strat: impl Fn() -> S + Sync, check: impl Fn(&T, &mut Obs) -> Res + Sync)
    where T: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static, S: Strategy<Value = T> + 'static {
        self.campaign_dyn(name, quick, thorough, &|| strat().boxed(), &check)
    }

    fn campaign_dyn<T>(&self, name: &str, quick: u64, thorough: u64, strat: &(dyn Fn() -> BoxedStrategy<T> + Sync), check: &(dyn Fn(&T, &mut Obs) -> Res + Sync))
    where T: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static {
        if let Some(o) = &self.only { if o != name { return; } }
        let run1 = |t: &T| -> (Res, Obs) {
            let mut o = Obs::default();
            let r = match guard("case", || check(t, &mut o)) { Ok(r) => r, Err(e) => Err(e) };
            (r, o)
        };
        if let Some(r) = &self.replay {
            if r.campaign != name { return; }
            let run1 = &run1;
            if let Some(p) = self.outcome_path.clone() {
                let pid = self.pid.clone();
                std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(2 * CASE_LIMIT_S)); let o = Outcome { replay_found: true, replay_failed: Some(format!("{pid}: the case did not end within {CASE_LIMIT_S} s of processor time")), ..Default::default() }; std::fs::write(p, serde_json::to_string(&o).unwrap()).unwrap(); std::process::exit(0) });
            }
            let h = std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || { let t: T = serde_json::from_value(r.case.clone()).expect("replay case"); run1(&t).0 }).unwrap().join());
            let mut out = self.out.lock().unwrap();
            out.replay_found = true;
            match h { Ok(Ok(())) => {}, Ok(Err(Fail(m))) => out.replay_failed = Some(m), Err(_) => out.replay_failed = Some("thread died".into()) }
            return;
        }
        let total = self.n(quick, thorough);
        let t0 = std::time::Instant::now();
        let sh = Shared { evals: AtomicU64::new(0), nontriv: Mutex::new(HashSet::new()), classes: Mutex::new(BTreeMap::new()), samples: Mutex::new(vec![]), stop: AtomicBool::new(false), failures: Mutex::new(vec![]), running: (0..SHARDS).map(|_| Mutex::new(None)).collect(), done: AtomicBool::new(false) };
        std::thread::scope(|s| {
            let mut hs = vec![];
            let shw = &sh;
            s.spawn(move || while !shw.done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for r in &shw.running {
                    let stuck = match &*r.lock().unwrap() { Some((t, c)) if t.seconds() > CASE_LIMIT_S => Some(c.clone()), _ => None };
                    if let (Some(case), Some(path)) = (stuck, &self.outcome_path) { self.give_up(name, case, path); }
                }
            });
            for shard in 0..SHARDS {
                let (sh, run1, strat) = (&sh, &run1, &strat);
                hs.push(std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&self.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&fnv(format!("{}/{}", self.pid, name).as_bytes()).to_le_bytes());
                    seed[16..24].copy_from_slice(&shard.to_le_bytes());
                    let cfg = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let st = strat();
                    let quota = total / SHARDS + u64::from(shard < total % SHARDS);
                    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                    let mut nontriv = HashSet::new();
                    for i in 0..quota {
                        if sh.stop.load(Ordering::Relaxed) { break; }
                        let Ok(mut tree) = st.new_tree(&mut runner) else { *classes.entry("generator-rejected".into()).or_default() += 1; continue };
                        let cur = tree.current();
                        if let Some(d) = &self.trace {
                            let r = Replay { property: self.pid.clone(), campaign: name.into(), seed: self.seed, message: "the process died while running this case".into(), rendered: String::new(), case: serde_json::to_value(&cur).unwrap() };
                            let _ = std::fs::write(d.join(format!("shard-{shard}.json")), serde_json::to_string(&r).unwrap());
                        }
                        let run_case = |c: &T| { *sh.running[shard as usize].lock().unwrap() = Some((CpuClock::start(), serde_json::to_value(c).unwrap())); let r = run1(c); *sh.running[shard as usize].lock().unwrap() = None; r };
                        let (res, obs) = run_case(&cur);
                        sh.evals.fetch_add(1, Ordering::Relaxed);
                        for c in obs.classes { *classes.entry(c).or_default() += 1; }
                        if obs.nontrivial {
                            let js = serde_json::to_string(&cur).unwrap();
                            if nontriv.insert(fnv(js.as_bytes())) && (i % (quota / 3).max(1) == (quota / 3).max(1) / 2 || i == 3) {
                                sh.samples.lock().unwrap().push((i, shard, obs.sample.unwrap_or(js)));
                            }
                        }
                        if let Err(Fail(first)) = res {
                            sh.stop.store(true, Ordering::Relaxed);
                            let (mut best, mut msg) = (cur, first);
                            let t1 = std::time::Instant::now();
                            let mut iters = 0;
                            if tree.simplify() {
                                loop {
                                    iters += 1;
                                    if iters > 3000 || t1.elapsed().as_secs() > 40 { break; }
                                    let c = tree.current();
                                    match run_case(&c).0 {
                                        Err(Fail(m)) => { best = c; msg = m; if !tree.simplify() { break; } }
                                        Ok(()) => if !tree.complicate() { break; },
                                    }
                                }
                            }
                            let o = run1(&best).1;
                            sh.failures.lock().unwrap().push((shard, Replay { property: self.pid.clone(), campaign: name.into(), seed: self.seed, message: msg, rendered: o.sample.unwrap_or_default(), case: serde_json::to_value(&best).unwrap() }));
                            break;
                        }
                    }
                    let mut c = sh.classes.lock().unwrap();
                    for (k, v) in classes { *c.entry(k).or_default() += v; }
                    sh.nontriv.lock().unwrap().extend(nontriv);
                }).unwrap());
            }
            for h in hs { if let Err(e) = h.join() { sh.done.store(true, Ordering::Relaxed); std::panic::resume_unwind(e) } }
            sh.done.store(true, Ordering::Relaxed);
        });
        let mut fs = sh.failures.into_inner().unwrap();
        fs.sort_by_key(|(s, r)| (r.case.to_string().len(), *s));
        let mut out = self.out.lock().unwrap();
        if let Some((_, r)) = fs.first() { let p = self.write_replay(r); out.violations.push((p, r.message.clone())); }
        let ev = sh.evals.load(Ordering::Relaxed);
        let nt = sh.nontriv.into_inner().unwrap().len() as u64;
        out.evaluations += ev;
        out.nontrivial += nt;
        let mut sm = sh.samples.into_inner().unwrap();
        sm.sort();
        for (_, _, s) in sm.iter().take(2) { out.samples.push(serde_json::json!({"campaign": name, "case": clip(s)})); }
        out.campaigns.push(serde_json::json!({"campaign": name, "evaluations": ev, "distinct_nontrivial": nt, "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "classes": sh.classes.into_inner().unwrap()}));
    }
}
pub const STACK: usize = 64 << 20;
