//! Shared machinery of the checks: counting what was explored, telling known
//! findings from new violations, writing replay files and evidence, and turning
//! panics and hangs of the code under test into verdicts.
use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use rayon;
pub use serde_json;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Where /verif is (the crate's own location, so that it follows a copy).
pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
        .join("../..")
        .canonicalize()
        .unwrap()
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// Picks a bound by tier.
pub fn tier<T>(quick: T, deep: T) -> T {
    if thorough() {
        deep
    } else {
        quick
    }
}

struct Inner {
    samples: Vec<Value>,
    extra: BTreeMap<String, u64>,
    violations: Vec<(String, Value)>,
    violation_keys: BTreeSet<String>,
    known_seen: BTreeMap<String, u64>,
    notes: Vec<String>,
}

pub struct Check {
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    start: Instant,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
    in_flight: Mutex<BTreeMap<u64, (Instant, Arc<dyn Fn() -> String + Send + Sync>)>>,
    next_flight: AtomicU64,
    exhaustive: bool,
    assumptions: Vec<&'static str>,
}

static PRINTED: AtomicU64 = AtomicU64::new(0);
const MAX_VIOLATIONS: usize = 5;
const HANG_SECS: u64 = 100;

impl Check {
    /// `level` is "exploration" or "model_checking".
    pub fn new(
        id: &'static str,
        level: &'static str,
        rule: &'static str,
        assumptions: &[&'static str],
    ) -> Arc<Self> {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|l| *l.borrow_mut() = msg);
            } else {
                // a worker thread, mostly
                LAST_PANIC.with(|l| *l.borrow_mut() = msg.clone());
                if PRINTED.fetch_add(1, Ordering::Relaxed) < 5 {
                    eprintln!("{msg}");
                }
            }
        }));
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) {
            for line in text.lines().filter(|l| l.trim_start().starts_with('{')) {
                let v: Value = serde_json::from_str(line).expect("known_findings.jsonl");
                if v["property"] == id && v["status"] == "known" {
                    known.push((
                        v["key"].as_str().unwrap().to_string(),
                        v["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        let check = Arc::new(Check {
            id,
            level,
            rule,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            known,
            inner: Mutex::new(Inner {
                samples: vec![],
                extra: BTreeMap::new(),
                violations: vec![],
                violation_keys: BTreeSet::new(),
                known_seen: BTreeMap::new(),
                notes: vec![],
            }),
            in_flight: Mutex::new(BTreeMap::new()),
            next_flight: AtomicU64::new(0),
            exhaustive: true,
            assumptions: assumptions.to_vec(),
        });
        let c = check.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let hung = {
                let f = c.in_flight.lock().unwrap();
                f.values()
                    .find(|(t, _)| t.elapsed().as_secs() > HANG_SECS)
                    .map(|(_, d)| d.clone())
            };
            if let Some(d) = hung {
                c.violation("hang", format!("no result after {HANG_SECS} s: {}", d()));
                c.finish_exit();
            }
        });
        check
    }

    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn nontrivial(&self, n: u64) {
        self.nontrivial.fetch_add(n, Ordering::Relaxed);
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// Adds to a named counter reported in the evidence.
    pub fn count(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        if let Some(c) = i.extra.get_mut(name) {
            *c += n;
        } else {
            i.extra.insert(name.to_string(), n);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(v);
        }
    }
    pub fn wants_samples(&self) -> bool {
        self.inner.lock().unwrap().samples.len() < 12
    }
    pub fn note(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().notes.push(s.into());
    }

    /// Reports that the property failed. `key` identifies the kind of failing
    /// input precisely enough to be listed as a known finding; `what` is the case.
    pub fn violation(&self, key: &str, what: impl Into<String>) {
        let what = what.into();
        let mut i = self.inner.lock().unwrap();
        if self.known.iter().any(|(k, _)| k == key) {
            *i.known_seen.entry(key.to_string()).or_default() += 1;
            return;
        }
        if i.violation_keys.insert(key.to_string()) || i.violations.len() < MAX_VIOLATIONS {
            i.violations
                .push((key.to_string(), json!({"key": key, "case": what})));
        }
    }
    pub fn violated(&self) -> bool {
        self.inner.lock().unwrap().violations.len() >= MAX_VIOLATIONS
    }

    /// Runs the code under test, with panics returned as Err and hangs reported.
    pub fn run<R>(
        &self,
        describe: impl Fn() -> String + Send + Sync + 'static,
        f: impl FnOnce() -> R,
    ) -> Result<R, String> {
        let k = self.next_flight.fetch_add(1, Ordering::Relaxed);
        self.in_flight
            .lock()
            .unwrap()
            .insert(k, (Instant::now(), Arc::new(describe)));
        let r = quiet_catch(f);
        self.in_flight.lock().unwrap().remove(&k);
        r
    }

    /// Like `run` for a whole batch: no per-case bookkeeping.
    pub fn batch<R>(&self, name: &str, f: impl FnOnce() -> R) -> Option<R> {
        let t0 = Instant::now();
        let n = name.to_string();
        let r = self.run(move || n.clone(), f);
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{name}: {:.1} s", t0.elapsed().as_secs_f64());
        }
        match r {
            Ok(r) => Some(r),
            Err(e) => {
                self.violation("panic", format!("{name}: {e}"));
                None
            }
        }
    }

    /// Writes the evidence, prints the verdict, and ends the process.
    pub fn finish(self: &Arc<Self>) -> ! {
        self.finish_exit()
    }

    fn finish_exit(&self) -> ! {
        let i = self.inner.lock().unwrap();
        let dir = verif_dir();
        let mut cov = Map::new();
        for (k, v) in &i.extra {
            cov.insert(k.clone(), json!(v));
        }
        let evals = self.evals.load(Ordering::Relaxed);
        cov.insert("evaluations".into(), json!(evals));
        cov.insert(
            "distinct_nontrivial".into(),
            json!(self.nontrivial.load(Ordering::Relaxed)),
        );
        if self.level == "model_checking" {
            cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
            cov.insert(
                "transitions".into(),
                json!(self.transitions.load(Ordering::Relaxed)),
            );
            cov.insert("traces_validated_against_impl".into(), json!(evals));
        }
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("exhaustive".into(), json!(self.exhaustive));
        if !i.notes.is_empty() {
            cov.insert("notes".into(), json!(i.notes));
        }
        if !i.known_seen.is_empty() {
            cov.insert("known_findings_seen".into(), json!(i.known_seen));
        }
        let ev = json!({
            "property": self.id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": self.level,
            "coverage": cov,
            "violations": i.violations.len(),
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::create_dir_all(dir.join("evidence")).unwrap();
        std::fs::write(
            dir.join("evidence").join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
        for (k, what) in &self.known {
            if i.known_seen.contains_key(k) {
                println!("KNOWN-FINDING: property={} [{}] {}", self.id, k, what);
            } else {
                println!("note: known finding [{k}] of {} was not reproduced", self.id);
            }
        }
        println!(
            "{}: {} evaluations, {} non-trivial, {} states, {} transitions, {:.1} s {:?}",
            self.id,
            evals,
            self.nontrivial.load(Ordering::Relaxed),
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64(),
            i.extra
        );
        if i.violations.is_empty() {
            if evals == 0 {
                println!("error: nothing was explored");
                std::process::exit(3);
            }
            println!("{}: held", self.id);
            std::process::exit(0);
        }
        let rdir = dir.join(".build/replay");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}.json", self.id));
        let all: Vec<&Value> = i.violations.iter().map(|(_, v)| v).collect();
        std::fs::write(&path, serde_json::to_string_pretty(&all).unwrap()).unwrap();
        for (k, v) in i.violations.iter().take(8) {
            let s = v["case"].as_str().unwrap_or("");
            let s: String = s.chars().take(1500).collect();
            println!("  [{k}] {s}");
        }
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1);
    }
}

/// Runs `f`; a panic comes back as its message and prints nothing.
pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// All vectors of length `n` over 0..k.
pub fn tuples(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u64).pow(n as u32);
    (0..total).map(move |mut i| {
        (0..n)
            .map(|_| {
                let d = (i % k as u64) as usize;
                i /= k as u64;
                d
            })
            .collect()
    })
}

/// All multisets (non-decreasing index vectors) of size `n` over 0..k.
pub fn multisets(k: usize, n: usize) -> Vec<Vec<usize>> {
    fn go(k: usize, n: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..k {
            cur.push(i);
            go(k, n - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(k, n, 0, &mut vec![], &mut out);
    out
}

/// All strictly increasing index vectors of size `n` over 0..k.
pub fn subsets(k: usize, n: usize) -> Vec<Vec<usize>> {
    multisets(k, n)
        .into_iter()
        .filter(|v| v.windows(2).all(|w| w[0] < w[1]))
        .collect()
}
