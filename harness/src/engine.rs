//! Generated-case engine: drives proptest strategies over worker threads, counts what was covered,
//! shrinks failures and writes replay files.
use crate::refs::{self, hash::sha256};
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const WORKERS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one execution of a test observed about its case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// further evaluations inside this case (block cases)
    pub extra: u64,
}
impl Obs {
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}
pub type Out = Result<(), String>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, Value)>,
    pub journal: Option<String>,
    pub scale: f64,
    pub only: Option<String>,
    pub violation: Option<Violation>,
    pub replayed: bool,
    evaluations: u64,
    distinct: u64,
    rules: Vec<String>,
    samples: Vec<Value>,
    subs: Vec<Value>,
    pub assumptions: Vec<String>,
    start: Instant,
    pub harness_error: Option<String>,
}

thread_local! {
    // boxed: assigning None to a larger option would copy stray bytes of the stack into memory that P24 searches
    static PANIC: RefCell<Option<Box<(String, String)>>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(Box::new((loc, msg))));
        if !QUIET.with(|q| *q.borrow()) {
            default(i);
        }
    }));
}

static BEATS: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];
fn now_ms() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// Ends the process with `code` when one generated case has been running for `secs` seconds.
pub fn start_stall_watch(secs: u64, code: i32) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for b in &BEATS {
            let t = b.load(Ordering::Relaxed);
            if t != 0 && now_ms().saturating_sub(t) > secs * 1000 {
                eprintln!("a generated case has been running for {} s", secs);
                std::process::exit(code);
            }
        }
    });
}

pub enum Ran {
    Ok,
    Fail(String),
    Harness(String),
}
/// Run a closure, turning a panic raised outside the harness's own source into a failure.
pub fn guarded<F: FnOnce() -> Out>(f: F) -> Ran {
    QUIET.with(|q| *q.borrow_mut() = true);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(m)) => Ran::Fail(m),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).map(|b| *b).unwrap_or_default();
            if loc.starts_with("src/") || loc.is_empty() {
                Ran::Harness(format!("harness panic at {}: {}", loc, msg))
            } else {
                Ran::Fail(format!("panicked at {}: {}", loc, msg))
            }
        }
    }
}
fn case_hash(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn trim(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 700 {
        v
    } else {
        Value::String(format!("{}… ({} bytes of JSON)", s.chars().take(600).collect::<String>(), s.len()))
    }
}

#[derive(Default)]
struct Counts {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Run {
    pub fn new(id: &'static str, tier: Tier, seed: u64) -> Run {
        Run {
            id,
            tier,
            seed,
            replay: None,
            journal: None,
            scale: 1.0,
            only: None,
            violation: None,
            replayed: false,
            evaluations: 0,
            distinct: 0,
            rules: vec![],
            samples: vec![],
            subs: vec![],
            assumptions: vec![],
            start: Instant::now(),
            harness_error: None,
        }
    }
    pub fn skip(&self, name: &str) -> bool {
        self.violation.is_some()
            || self.harness_error.is_some()
            || self.only.as_deref().is_some_and(|o| o != name)
            || self.replay.as_ref().is_some_and(|(s, _)| s != name)
    }
    /// One generated sub-check. `rule` says how cases are made and what makes one non-trivial.
    pub fn sub<C, S>(
        &mut self,
        name: &'static str,
        rule: &str,
        quick: u64,
        thorough: u64,
        strat: impl Fn() -> S + Sync,
        test: impl Fn(&C, &mut Obs) -> Out + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone,
        S: Strategy<Value = C>,
    {
        if self.skip(name) {
            return;
        }
        if let Some((_, v)) = self.replay.clone() {
            self.replayed = true;
            let c: C = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => {
                    self.harness_error = Some(format!("replay file does not fit {}: {}", name, e));
                    return;
                }
            };
            match guarded(|| test(&c, &mut Obs::default())) {
                Ran::Ok => {}
                Ran::Fail(m) => self.violation = Some(Violation { sub: name.into(), case: v, message: m }),
                Ran::Harness(m) => self.harness_error = Some(m),
            }
            return;
        }
        let t0 = Instant::now();
        let total = ((if self.tier == Tier::Quick { quick } else { thorough }) as f64 * self.scale).ceil().max(1.0) as u64;
        let stop = AtomicBool::new(false);
        let all: Mutex<Counts> = Mutex::new(Counts::default());
        let bad: Mutex<Option<Violation>> = Mutex::new(None);
        let herr: Mutex<Option<String>> = Mutex::new(None);
        let (id, seed, journal) = (self.id, self.seed, self.journal.clone());
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (stop, all, bad, herr, strat, test, journal) = (&stop, &all, &bad, &herr, &strat, &test, &journal);
                let n = total / WORKERS as u64 + u64::from((w as u64) < total % WORKERS as u64);
                let body = move || {
                    let rng_seed = sha256(format!("{}|{}|{}|{}", seed, id, name, w).as_bytes());
                    let mut counts = Counts::default();
                    let strategy = strat();
                    let mut left = n;
                    let mut chunk = 0u64;
                    // in chunks: proptest case counts are u32 and the failure state stays small
                    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed);
                    while left > 0 && !stop.load(Ordering::Relaxed) {
                        let now = left.min(1 << 20);
                        left -= now;
                        chunk += 1;
                        let cfg = Config {
                            cases: now as u32,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 25_000,
                            ..Config::default()
                        };
                        let _ = chunk;
                        let mut runner = TestRunner::new_with_rng(cfg, rng.clone());
                        let failing = std::cell::Cell::new(false);
                        let cc = RefCell::new(&mut counts);
                        let jpath = journal.as_ref().map(|d| format!("{}/{}.{}.json", d, name, w));
                        let res = runner.run(&strategy, |case| {
                            if !failing.get() && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if let Some(p) = &jpath {
                                let _ = std::fs::write(p, json!({"property": id, "sub": name, "case": case}).to_string());
                            }
                            let mut obs = Obs::default();
                            BEATS[w].store(now_ms(), Ordering::Relaxed);
                            let r = guarded(|| test(&case, &mut obs));
                            BEATS[w].store(0, Ordering::Relaxed);
                            if !failing.get() {
                                let mut c = cc.borrow_mut();
                                c.evals += 1 + obs.extra;
                                for l in &obs.labels {
                                    *c.labels.entry(l).or_default() += 1;
                                }
                                if obs.nontrivial {
                                    let v = serde_json::to_string(&case).unwrap_or_default();
                                    if c.distinct.insert(case_hash(&v)) && c.samples.len() < 2 {
                                        let v: Value = serde_json::from_str(&v).unwrap_or(Value::Null);
                                        c.samples.push(v);
                                    }
                                }
                            }
                            match r {
                                Ran::Ok => Ok(()),
                                Ran::Fail(m) => {
                                    failing.set(true);
                                    Err(TestCaseError::fail(m))
                                }
                                Ran::Harness(m) => {
                                    *herr.lock().unwrap() = Some(m);
                                    stop.store(true, Ordering::Relaxed);
                                    Ok(())
                                }
                            }
                        });
                        rng = runner.new_rng();
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(m, case)) => {
                                stop.store(true, Ordering::Relaxed);
                                let mut b = bad.lock().unwrap();
                                if b.is_none() {
                                    *b = Some(Violation {
                                        sub: name.into(),
                                        case: serde_json::to_value(&case).unwrap_or(Value::Null),
                                        message: m.message().to_string(),
                                    });
                                }
                            }
                            Err(TestError::Abort(m)) => {
                                stop.store(true, Ordering::Relaxed);
                                *herr.lock().unwrap() = Some(format!("generator gave up: {}", m.message()));
                            }
                        }
                    }
                    let mut a = all.lock().unwrap();
                    a.evals += counts.evals;
                    a.distinct.extend(counts.distinct);
                    for (k, v) in counts.labels {
                        *a.labels.entry(k).or_default() += v;
                    }
                    if a.samples.len() < 3 {
                        a.samples.extend(counts.samples.into_iter().take(1));
                    }
                };
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, body).expect("spawn worker");
            }
        });
        let c = all.into_inner().unwrap();
        self.violation = bad.into_inner().unwrap();
        if self.violation.is_none() {
            self.harness_error = herr.into_inner().unwrap();
        }
        self.record(name, rule, c.evals, c.distinct.len() as u64, c.samples, json!(c.labels), t0);
        if self.violation.is_none() && self.harness_error.is_none() && c.distinct.is_empty() {
            self.harness_error = Some(format!("{}: no non-trivial case was generated", name));
        }
    }

    fn record(&mut self, name: &str, rule: &str, evals: u64, distinct: u64, samples: Vec<Value>, labels: Value, t0: Instant) {
        self.evaluations += evals;
        self.distinct += distinct;
        self.rules.push(format!("[{}] {}", name, rule));
        for s in &samples {
            self.samples.push(json!({"sub": name, "case": trim(s.clone())}));
        }
        self.subs.push(json!({"sub": name, "evaluations": evals, "distinct_nontrivial": distinct, "classes": labels,
            "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0}));
        eprintln!("{} {}: {} evaluations, {} distinct non-trivial, {:.1}s {}", self.id, name, evals, distinct, t0.elapsed().as_secs_f64(), labels);
    }

    /// A sub-check that is not one-case-at-a-time (populations, enumerations). The closure gets the
    /// replayed case, if any, and returns (evaluations, distinct non-trivial, samples, labels) or a violation.
    pub fn custom(
        &mut self,
        name: &'static str,
        rule: &str,
        f: impl FnOnce(&Run, Option<&Value>) -> Result<Result<(u64, u64, Vec<Value>, Value), (Value, String)>, String>,
    ) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let rep = self.replay.clone().map(|x| x.1);
        if rep.is_some() {
            self.replayed = true;
        }
        let mut out = None;
        let r = guarded(|| {
            out = Some(f(self, rep.as_ref()));
            Ok(())
        });
        match (r, out) {
            (_, Some(Ok(Ok((e, d, s, l))))) => {
                if d == 0 && rep.is_none() {
                    self.harness_error = Some(format!("{}: no non-trivial case was generated", name));
                }
                self.record(name, rule, e, d, s, l, t0)
            }
            (_, Some(Ok(Err((case, m))))) => {
                self.record(name, rule, 1, 1, vec![case.clone()], json!({}), t0);
                self.violation = Some(Violation { sub: name.into(), case, message: m })
            }
            (_, Some(Err(m))) => self.harness_error = Some(m),
            (Ran::Fail(m), None) => {
                let case = rep.unwrap_or(Value::Null);
                self.record(name, rule, 1, 1, vec![case.clone()], json!({}), t0);
                self.violation = Some(Violation { sub: name.into(), case, message: m })
            }
            (Ran::Harness(m), None) => self.harness_error = Some(m),
            (Ran::Ok, None) => self.harness_error = Some("custom check gave nothing".into()),
        }
    }

    pub fn write_replay(&self, dir: &str) -> String {
        let v = self.violation.as_ref().expect("violation");
        let body = json!({"property": self.id, "sub": v.sub, "case": v.case, "message": v.message, "seed": self.seed});
        let h = refs::hex(&sha256(v.case.to_string().as_bytes())[..4]);
        let _ = std::fs::create_dir_all(dir);
        let p = format!("{}/{}-{}-{}.json", dir, self.id, v.sub, h);
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap() + "\n");
        p
    }
    pub fn evidence(&self, level: &str) -> Value {
        json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join(" "),
                "samples": self.samples,
                "sub_checks": self.subs,
            },
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": u64::from(self.violation.is_some()),
        })
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($w:tt)*) => {
        match (&$a, &$b) {
            (a, b) => if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($w)*), a, b)); }
        }
    };
}
