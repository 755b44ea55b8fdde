//! Runner: generated cases, classification, shrinking, replay files, evidence.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub const SHARDS: u64 = 8;

/// Failure of an oracle. `sig` is an exact signature used to recognise recorded findings.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail { Fail { sig: None, msg: msg.into() } }
    pub fn sig(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { sig: Some(sig.into()), msg: msg.into() }
    }
}

#[macro_export]
macro_rules! fail {
    ($($arg:tt)+) => { return Err($crate::frame::Fail::new(format!($($arg)+))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) { return Err($crate::frame::Fail::new(format!($($arg)+))); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::frame::Fail::new(format!("{}:\n   left: {:?}\n  right: {:?}", format!($($arg)+), a, b)));
        }
    }};
}

/// Classification of one case.
#[derive(Default, Debug)]
pub struct Cov {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Cov {
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn nontrivial_if(&mut self, cond: bool) { self.nontrivial |= cond; }
    pub fn class(&mut self, c: impl Into<String>) {
        let c = c.into();
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &str) {
        if cond {
            self.class(c)
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    distinct: BTreeSet<u64>,
    classes: BTreeMap<String, u64>,
    checks: BTreeMap<String, Value>,
    samples: Vec<Value>,
    known_hits: BTreeSet<String>,
    violation: Option<(String, PathBuf)>,
    replay_matched: bool,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    rule: Mutex<Vec<String>>,
    known: Vec<Known>,
    replay: Option<(String, Value)>,
    only: Option<String>,
    scale: f64,
    started: Instant,
    agg: Mutex<Agg>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("RGBCHECK_BT").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs code under test; a panic becomes `Err(description)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_owned()))
}

/// As [`no_panic`] but with the panic reported as an oracle failure.
pub fn total<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    no_panic(f).map_err(|p| Fail::new(format!("{what} crashed: {p}")))
}

fn h64(parts: &[&[u8]]) -> u64 {
    // FNV-1a, stable across toolchains
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn shorten(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1200 {
        v
    } else {
        let mut end = 1200;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}… ({} bytes)", &s[..end], s.len()))
    }
}

/// Removes the steps of a failing history which are not needed for the failure.
fn drop_steps<T: Serialize + DeserializeOwned + Clone>(v: T, msg: String, f: impl Fn(&T) -> Option<String>) -> (T, String) {
    let start = Instant::now();
    let (mut best, mut best_msg) = (v, msg);
    let mut js = serde_json::to_value(&best).unwrap();
    let mut size = js.get("steps").and_then(|s| s.as_array()).map(|s| s.len() / 2).unwrap_or(0);
    while size > 0 {
        let mut n = 0;
        while n < js["steps"].as_array().unwrap().len() && start.elapsed() < Duration::from_secs(60) {
            let mut next = js.clone();
            let steps = next["steps"].as_array_mut().unwrap();
            let end = (n + size).min(steps.len());
            steps.drain(n..end);
            let Ok(v) = serde_json::from_value::<T>(next.clone()) else { return (best, best_msg) };
            match f(&v) {
                Some(msg) => (js, best, best_msg) = (next, v, msg),
                None => n += size,
            }
        }
        size /= 2;
    }
    (best, best_msg)
}

impl Ctx {
    pub fn new(
        id: String,
        tier: Tier,
        seed: u64,
        root: PathBuf,
        replay: Option<(String, Value)>,
        only: Option<String>,
        scale: f64,
    ) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) {
            for line in s.lines() {
                // known: property=C01 sig=<signature> <what fails>
                let Some(rest) = line.strip_prefix("known: property=") else { continue };
                let mut it = rest.splitn(3, ' ');
                let (Some(p), Some(sig), Some(what)) = (it.next(), it.next(), it.next()) else { continue };
                let Some(sig) = sig.strip_prefix("sig=") else { continue };
                if p == id {
                    known.push(Known { property: p.into(), sig: sig.into(), what: what.into() });
                }
            }
        }
        Ctx {
            id,
            tier,
            seed,
            root,
            rule: Mutex::new(vec![]),
            known,
            replay,
            only,
            scale,
            started: Instant::now(),
            agg: Mutex::new(Agg::default()),
        }
    }

    pub fn rule(&self, s: &str) { self.rule.lock().unwrap().push(s.to_owned()); }

    fn is_known(&self, f: &Fail) -> bool {
        matches!(&f.sig, Some(s) if self.known.iter().any(|k| &k.sig == s))
    }

    /// A probe for a recorded finding: one fixed case, judged like any other.
    pub fn probe(&self, name: &str, f: impl FnOnce() -> Res) {
        if self.replay.is_some() || self.violated() {
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        let res = match no_panic(f) {
            Ok(r) => r,
            Err(p) => Err(Fail::new(format!("crash: {p}"))),
        };
        self.agg.lock().unwrap().evaluations += 1;
        if let Err(f) = res {
            if self.is_known(&f) {
                self.agg.lock().unwrap().known_hits.insert(f.sig.unwrap());
            } else {
                self.report(name, &Value::Null, &f.msg);
            }
        }
    }

    fn violated(&self) -> bool { self.agg.lock().unwrap().violation.is_some() }

    fn report(&self, name: &str, value: &Value, msg: &str) {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, name));
        let body = json!({"property": self.id, "check": name, "seed": self.seed, "value": value, "message": msg});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        eprintln!("--- {} / {name} failed\n{msg}\ninput: {}", self.id, shorten(value.clone()));
        let mut agg = self.agg.lock().unwrap();
        if agg.violation.is_none() {
            agg.violation = Some((name.to_owned(), path));
        }
    }

    pub fn check<T, S>(
        &self,
        name: &str,
        quick: u32,
        thorough: u32,
        strat: impl Fn() -> S + Sync,
        f: impl Fn(&T, &mut Cov) -> Res + Sync,
    ) where
        T: Serialize + DeserializeOwned + Debug + Clone,
        S: Strategy<Value = T>,
    {
        if let Some((rname, value)) = &self.replay {
            if rname != name {
                return;
            }
            self.agg.lock().unwrap().replay_matched = true;
            let v: T = serde_json::from_value(value.clone()).expect("replay value does not fit the check");
            let mut cov = Cov::default();
            let res = match no_panic(|| f(&v, &mut cov)) {
                Ok(r) => r,
                Err(p) => Err(Fail::new(format!("crash: {p}"))),
            };
            println!("replay {name}: {res:?}");
            if let Err(e) = res {
                if !self.is_known(&e) {
                    self.report(name, value, &e.msg);
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        if self.violated() {
            return;
        }
        let total_cases = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total_cases = ((total_cases as f64 * self.scale).ceil() as u32).max(1);
        let start = Instant::now();
        let failed = AtomicBool::new(false);
        let evals = Mutex::new(0u64);
        let nontriv = Mutex::new(BTreeSet::<u64>::new());
        let classes = Mutex::new(BTreeMap::<String, u64>::new());
        let samples = Mutex::new(Vec::<Value>::new());
        let found: Mutex<Option<(u64, Value, String)>> = Mutex::new(None);

        std::thread::scope(|scope| {
            for shard in 0..SHARDS {
                let cases = total_cases / SHARDS as u32 +
                    if (shard as u32) < total_cases % SHARDS as u32 { 1 } else { 0 };
                if cases == 0 {
                    continue;
                }
                let (failed, evals, nontriv, classes, samples, found) =
                    (&failed, &evals, &nontriv, &classes, &samples, &found);
                let (strat, f) = (&strat, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut seed = [0u8; 32];
                        for (i, chunk) in seed.chunks_mut(8).enumerate() {
                            let h = h64(&[
                                &self.seed.to_le_bytes(),
                                self.id.as_bytes(),
                                name.as_bytes(),
                                &shard.to_le_bytes(),
                                &[i as u8],
                            ]);
                            chunk.copy_from_slice(&h.to_le_bytes());
                        }
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            max_global_rejects: 1_000_000,
                            max_local_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let first_fail: RefCell<Option<Instant>> = RefCell::new(None);
                        let last: RefCell<Option<(T, String)>> = RefCell::new(None);
                        let res = runner.run(&strat(), |v| {
                            let mine = first_fail.borrow().is_some();
                            if !mine && failed.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if let Some(t) = *first_fail.borrow() {
                                if t.elapsed() > Duration::from_secs(60) {
                                    return Ok(());
                                }
                            }
                            let mut cov = Cov::default();
                            let res = match no_panic(|| f(&v, &mut cov)) {
                                Ok(r) => r,
                                Err(p) => Err(Fail::new(format!("crash: {p}"))),
                            };
                            if !mine {
                                *evals.lock().unwrap() += 1;
                                let mut cl = classes.lock().unwrap();
                                for c in cov.classes.drain(..) {
                                    *cl.entry(c).or_default() += 1;
                                }
                                drop(cl);
                                if cov.nontrivial {
                                    let js = serde_json::to_string(&v).unwrap();
                                    let mut h = DefaultHasher::new();
                                    js.hash(&mut h);
                                    nontriv.lock().unwrap().insert(h.finish());
                                    if shard == 0 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 2 {
                                            s.push(shorten(serde_json::from_str(&js).unwrap()));
                                        }
                                    }
                                }
                            }
                            match res {
                                Ok(()) => Ok(()),
                                Err(e) if self.is_known(&e) => {
                                    self.agg.lock().unwrap().known_hits.insert(e.sig.unwrap());
                                    Ok(())
                                }
                                Err(e) => {
                                    failed.store(true, Ordering::Relaxed);
                                    if first_fail.borrow().is_none() {
                                        *first_fail.borrow_mut() = Some(Instant::now());
                                    }
                                    *last.borrow_mut() = Some((v.clone(), e.msg.clone()));
                                    Err(TestCaseError::fail(e.msg))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(_, v)) => {
                                let (lv, msg) = last.borrow_mut().take().expect("failure was recorded");
                                // Re-check the minimal value so that its own message is reported.
                                let judge = |v: &T| match no_panic(|| f(v, &mut Cov::default())) {
                                    Ok(Err(e)) if self.is_known(&e) => None,
                                    Ok(Err(e)) => Some(e.msg),
                                    Err(p) => Some(format!("crash: {p}")),
                                    Ok(Ok(())) => None,
                                };
                                let (v, msg) = match judge(&v) {
                                    Some(msg) => (v, msg),
                                    None => (lv, msg),
                                };
                                let (v, msg) = drop_steps(v, msg, judge);
                                let mut fnd = found.lock().unwrap();
                                if fnd.as_ref().map(|(s, ..)| *s > shard).unwrap_or(true) {
                                    *fnd = Some((shard, serde_json::to_value(&v).unwrap(), msg));
                                }
                            }
                            Err(TestError::Abort(r)) => {
                                eprintln!("generator of {name} aborted: {r}");
                                std::process::exit(3);
                            }
                        }
                    })
                    .expect("thread");
            }
        });

        let (evals, nontriv, classes, samples) = (
            evals.into_inner().unwrap(),
            nontriv.into_inner().unwrap(),
            classes.into_inner().unwrap(),
            samples.into_inner().unwrap(),
        );
        {
            let mut agg = self.agg.lock().unwrap();
            agg.evaluations += evals;
            for h in &nontriv {
                agg.distinct.insert(h64(&[name.as_bytes(), &h.to_le_bytes()]));
            }
            for (c, n) in &classes {
                *agg.classes.entry(format!("{name}/{c}")).or_default() += n;
            }
            agg.checks.insert(
                name.to_owned(),
                json!({"evaluations": evals, "distinct_nontrivial": nontriv.len(), "wall_s": start.elapsed().as_secs_f64()}),
            );
            for s in samples {
                agg.samples.push(json!({"check": name, "case": s}));
            }
        }
        eprintln!(
            "{} / {name}: {evals} cases, {} distinct non-trivial, {:.1}s",
            self.id,
            nontriv.len(),
            start.elapsed().as_secs_f64()
        );
        if let Some((_, v, msg)) = found.into_inner().unwrap() {
            self.report(name, &v, &msg);
        }
    }

    /// Finishes the run: evidence, known findings, verdict. Returns the exit code.
    pub fn finish(self, level: &str, assumptions: &[&str]) -> i32 {
        let agg = self.agg.into_inner().unwrap();
        let violation = agg.violation;
        if self.replay.is_some() {
            return match violation {
                Some((_, path)) => {
                    println!("VIOLATION property={} replay={}", self.id, path.display());
                    1
                }
                None if agg.replay_matched => 0,
                None => {
                    eprintln!("no check of this name");
                    3
                }
            };
        }
        for k in &self.known {
            if agg.known_hits.contains(&k.sig) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.what);
            }
        }
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": agg.evaluations,
                "distinct_nontrivial": agg.distinct.len(),
                "rule": self.rule.into_inner().unwrap().join(" "),
                "samples": agg.samples,
                "classes": agg.classes,
                "sub_checks": agg.checks,
                "known_findings_seen": agg.known_hits,
            },
            "assumptions": assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": if violation.is_some() { 1 } else { 0 },
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence is writable");
        match violation {
            Some((_, path)) => {
                println!("VIOLATION property={} replay={}", self.id, path.display());
                1
            }
            None => 0,
        }
    }
}
