//! Generated-case engine: laws (strategy + oracle) run in worker processes, failures are shrunk and
//! written as replay files, counts are merged into the evidence file.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub const WORKERS: usize = 8;

#[derive(Default, Debug, Clone)]
pub struct Out {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Out {
    pub fn new(nontrivial: bool) -> Out { Out { nontrivial, classes: vec![] } }
    pub fn class(mut self, on: bool, c: &'static str) -> Out { if on { self.classes.push(c); } self }
}
pub type R = Result<Out, String>;

#[derive(Serialize, Deserialize, Default, Debug, Clone)]
pub struct LawStat {
    pub name: String,
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub worst: BTreeMap<String, f64>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub property: String,
    pub law: String,
    pub message: String,
    pub case_debug: String,
    pub case_json: String,
    pub case_hex: String,
    pub shrink_steps: u32,
    pub seed: u64,
}
#[derive(Serialize, Deserialize, Default, Debug, Clone)]
pub struct KnownStat { pub id: String, pub still_fails: bool, pub detail: String }
#[derive(Serialize, Deserialize, Default, Debug, Clone)]
pub struct WorkerReport { pub laws: Vec<LawStat>, pub known: Vec<KnownStat> }

pub enum Mode { Worker { idx: usize }, Replay { law: String, bytes: Vec<u8> } }

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub mode: Mode,
    pub report: WorkerReport,
    pub replay_result: Option<Result<(), String>>,
    pub scratch: PathBuf,
    pub only: Option<String>,
}

/// The case being evaluated, for the watchdog of the worker process.
pub static CURRENT: std::sync::Mutex<Option<(std::time::Instant, Failure)>> = std::sync::Mutex::new(None);
pub static PARTIAL: std::sync::Mutex<Option<WorkerReport>> = std::sync::Mutex::new(None);
pub fn case_limit_s() -> u64 { std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(150) }
/// Ends a worker whose case does not finish (generated cases take well below a second on a working tree).
pub fn start_watchdog(out: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let g = CURRENT.lock().unwrap();
        if let Some((t, f)) = g.as_ref() {
            if t.elapsed().as_secs() >= case_limit_s() {
                let mut f = f.clone();
                f.message = format!("the case did not finish within {} s", case_limit_s());
                let mut rep = PARTIAL.lock().unwrap().clone().unwrap_or_default();
                // A two-body step is a bounded computation, so not finishing is a violation there; anywhere else it is inconclusive.
                let bounded = f.property == "C06";
                rep.laws.push(LawStat { name: f.law.clone(), evaluations: 1, classes: [("inconclusive: case did not finish".to_string(), 1)].into_iter().collect(), failure: if bounded { Some(f) } else { None }, ..Default::default() });
                let _ = std::fs::write(&out, serde_json::to_string(&rep).unwrap());
                std::process::exit(0);
            }
        }
    });
}
thread_local! { static WORST: RefCell<BTreeMap<String, f64>> = RefCell::new(BTreeMap::new()); }
/// Record the ratio error/tolerance of one comparison (kept as a maximum per law) and judge it.
pub fn within(name: &str, err: f64, tol: f64) -> bool {
    let r = if err == 0. { 0. } else { err / tol };
    let r = if r.is_finite() { r } else { 1e300 };
    WORST.with(|w| { let mut w = w.borrow_mut(); let e = w.entry(name.to_string()).or_insert(0.); if !(r <= *e) { *e = r; } });
    r <= 1.
}
thread_local! { static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
    }));
}
/// Run code of the system under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

impl Ctx {
    fn seed_bytes(&self, law: &str, idx: usize) -> [u8; 32] {
        let mut out = [0u8; 32];
        for k in 0..4u64 {
            let s = format!("{}|{}|{}|{}|{}", self.seed, self.prop, law, idx, k);
            out[(k as usize) * 8..(k as usize) * 8 + 8].copy_from_slice(&fnv(s.as_bytes()).to_le_bytes());
        }
        out
    }

    /// One law: `quick`/`thorough` are the total numbers of generated cases over all workers.
    pub fn law<S, F>(&mut self, name: &str, quick: u32, thorough: u32, strat: S, f: F)
    where S: Strategy, S::Value: Serialize + DeserializeOwned + Debug + Clone, F: Fn(&S::Value) -> R {
        let (prop, seed) = (self.prop.clone(), self.seed);
        let eval = |c: &S::Value| -> R {
            let bytes = bincode::serialize(c).unwrap();
            *CURRENT.lock().unwrap() = Some((std::time::Instant::now(), Failure { property: prop.clone(), law: name.to_string(), message: String::new(), case_debug: trim(&format!("{:?}", c), 6000), case_json: String::new(), case_hex: bytes.iter().map(|b| format!("{:02x}", b)).collect(), shrink_steps: 0, seed }));
            let r = match guard(|| f(c)) { Ok(r) => r, Err(p) => Err(format!("unexpected panic: {}", p)) };
            *CURRENT.lock().unwrap() = None;
            r
        };
        match &self.mode {
            Mode::Replay { law, bytes } => {
                if law == name {
                    let c: S::Value = bincode::deserialize(bytes).expect("replay case does not decode");
                    self.replay_result = Some(eval(&c).map(|_| ()));
                }
            }
            Mode::Worker { idx } => {
                if let Some(o) = &self.only { if o != name { return; } }
                let t0 = std::time::Instant::now();
                let idx = *idx;
                let total = if self.thorough { thorough } else { quick } as usize;
                let n = (total + WORKERS - 1 - idx.min(WORKERS - 1)) / WORKERS;
                let mut stat = LawStat { name: name.to_string(), ..Default::default() };
                let mut runner = TestRunner::new_with_rng(
                    Config { failure_persistence: None, ..Config::default() },
                    TestRng::from_seed(RngAlgorithm::ChaCha, &self.seed_bytes(name, idx)));
                let mut seen: HashSet<u64> = HashSet::new();
                WORST.with(|w| w.borrow_mut().clear());
                for _ in 0..n {
                    let mut tree = match strat.new_tree(&mut runner) { Ok(t) => t, Err(e) => panic!("generator rejected too much: {:?}", e) };
                    let case = tree.current();
                    stat.evaluations += 1;
                    match eval(&case) {
                        Ok(out) => {
                            if out.nontrivial {
                                let h = fnv(&bincode::serialize(&case).unwrap());
                                if seen.insert(h) && stat.samples.len() < 2 { stat.samples.push(trim(&format!("{:?}", case), 900)); }
                            }
                            for c in out.classes { *stat.classes.entry(c.to_string()).or_insert(0) += 1; }
                        }
                        Err(first) => {
                            // Shrink
                            let (mut best, mut msg, mut steps) = (case, first, 0u32);
                            let tmax = std::time::Instant::now();
                            'shrink: while steps < 400 && tmax.elapsed().as_secs() < 90 {
                                if !tree.simplify() { break; }
                                loop {
                                    steps += 1;
                                    let c = tree.current();
                                    match eval(&c) {
                                        Err(m) => { best = c; msg = m; break; }
                                        Ok(_) => { if steps >= 400 || !tree.complicate() { break 'shrink; } }
                                    }
                                }
                            }
                            let bytes = bincode::serialize(&best).unwrap();
                            stat.failure = Some(Failure {
                                property: self.prop.clone(), law: name.to_string(), message: msg,
                                case_debug: trim(&format!("{:?}", best), 6000),
                                case_json: trim(&serde_json::to_string(&best).unwrap_or_default(), 20000),
                                case_hex: bytes.iter().map(|b| format!("{:02x}", b)).collect(),
                                shrink_steps: steps, seed: self.seed });
                            break;
                        }
                    }
                }
                stat.worst = WORST.with(|w| w.borrow().clone());
                stat.nontrivial_hashes = seen.into_iter().collect();
                stat.wall_s = t0.elapsed().as_secs_f64();
                self.report.laws.push(stat);
                *PARTIAL.lock().unwrap() = Some(self.report.clone());
            }
        }
    }

    /// Probe of a recorded known finding: `f` returns Some(detail) while the defect is still there.
    pub fn known(&mut self, id: &str, f: impl FnOnce() -> Option<String>) {
        if let Mode::Worker { idx: 0 } = self.mode {
            let d = match guard(f) { Ok(d) => d, Err(p) => Some(format!("panic: {}", p)) };
            self.report.known.push(KnownStat { id: id.to_string(), still_fails: d.is_some(), detail: d.unwrap_or_default() });
        }
    }
}

pub fn trim(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) }
}

// ---------------------------------------------------------------- numeric comparison helpers
/// |a-b| <= abs + rel*max(|a|,|b|); NaN never matches.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b { return true; }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
pub fn vclose(a: [f64; 3], b: [f64; 3], rel: f64, abs: f64) -> bool {
    let s = norm(a).max(norm(b));
    let d = norm(sub(a, b));
    d <= abs + rel * s
}
pub type V = [f64; 3];
pub fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn mul(a: V, s: f64) -> V { [a[0] * s, a[1] * s, a[2] * s] }
pub fn norm(a: V) -> f64 { dot(a, a).sqrt() }
pub fn finite(a: V) -> bool { a.iter().all(|x| x.is_finite()) }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
