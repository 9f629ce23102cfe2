//! What a check observed, and what it says about it: evidence file, VIOLATION and
//! KNOWN-FINDING lines, exit status, and a watchdog for cases that never return.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub tier: String,
    pub seed: u64,
    pub rng: Rng,
    rule: String,
    start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    violations: Vec<String>,
    known: Vec<(String, String)>,
    known_seen: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    watch: Arc<Mutex<(Instant, String)>>,
    max_seconds: f64,
    last: Option<std::fs::File>,
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01B3);
    }
    h
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs `f`; a panic becomes Err(message at location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Runs the check in a child process: a crash that no panic hook sees (abort, failed
/// allocation, stack overflow) is reported with the case announced last.
fn supervise(id: &str) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    if std::env::var("VERIF_CHILD").is_ok() {
        return;
    }
    let _ = std::fs::create_dir_all(format!("{}/work", root()));
    let _ = std::fs::write(last_case(id), "start-up");
    let _ = std::fs::remove_file(panic_note(id));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(std::env::args().skip(1)).env("VERIF_CHILD", "1");
    unsafe {
        c.pre_exec(|| {
            // address space: 14 GB; dies with its parent
            setrlimit(9, &[14 << 30, 14 << 30]);
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    let st = c.status().expect("child process");
    match (st.code(), st.signal()) {
        (Some(101), _) if std::path::Path::new(&panic_note(id)).exists() => {
            let text = std::fs::read_to_string(panic_note(id)).unwrap_or_default();
            let case = std::fs::read(last_case(id)).unwrap_or_default();
            let case = String::from_utf8_lossy(&case).to_string();
            let path = write_replay(id, 0, &json!({"property": id, "key": "panic", "panic": text, "case": case}));
            println!("VIOLATION property={id} replay={path}");
            println!("  {text} - where the check asks the code under test for a plain value; near: {}", case.chars().take(600).collect::<String>());
            std::process::exit(1)
        }
        (Some(k), _) => std::process::exit(k),
        (_, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            let case = std::fs::read(last_case(id)).unwrap_or_default();
            let case = String::from_utf8_lossy(&case).to_string();
            let path = write_replay(id, 0, &json!({"property": id, "key": "crash", "signal": sig, "case": case}));
            println!("VIOLATION property={id} replay={path}");
            println!("  the process crashed (signal {sig}) during: {}", case.chars().take(600).collect::<String>());
            std::process::exit(1)
        }
        (_, sig) => {
            println!("ended by signal {sig:?}");
            std::process::exit(2)
        }
    }
}

/// Written by the panic hook for a panic outside any guard that started in the code
/// under test (and not in the harness itself).
fn panic_note(id: &str) -> String {
    format!("{}/work/panic-{id}", root())
}

/// Did the panic start in the code under test? The innermost frame decides which is
/// neither the standard library's nor a stand-in's.
fn from_code_under_test(file: &str) -> bool {
    let whose = |f: &str| {
        if f.contains("/repo/src/") {
            Some(true)
        } else if f.contains("harness/src/") && !f.contains("harness/src/report.rs") {
            Some(false)
        } else {
            None
        }
    };
    if let Some(w) = whose(file) {
        return w;
    }
    if file.starts_with("src/") {
        return false;
    }
    std::backtrace::Backtrace::force_capture()
        .to_string()
        .lines()
        .filter_map(|l| l.trim().strip_prefix("at "))
        .find_map(whose)
        .unwrap_or(false)
}

fn last_case(id: &str) -> String {
    format!("{}/work/last-{id}", root())
}

impl Check {
    pub fn new(id: &'static str, rule: &str) -> Self {
        supervise(id);
        std::panic::set_hook(Box::new(|info| {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let l = info
                .location()
                .map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line()))
                .unwrap_or_default();
            let text = format!("{m} at {l}");
            let outside = GUARDED.with(|g| g.get()) == 0;
            if outside || std::env::var("VERIF_PANICS").is_ok() {
                eprintln!("panic: {text}");
            }
            if outside && info.location().is_some_and(|l| from_code_under_test(l.file())) {
                let _ = std::fs::write(panic_note(id), &text);
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = text);
        }));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        }
        .to_string();
        let known = std::fs::read_to_string(format!("{}/known-findings.txt", root()))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("finding: property=")?;
                let (pid, rest) = l.split_once(' ')?;
                let (key, text) = rest.strip_prefix("key=")?.split_once(' ')?;
                (pid == id).then(|| (key.to_string(), text.to_string()))
            })
            .collect();
        let watch = Arc::new(Mutex::new((Instant::now(), "start-up".to_string())));
        let w = watch.clone();
        let limit = Duration::from_secs(
            std::env::var("VERIF_WATCHDOG")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(240),
        );
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (t, what) = w.lock().unwrap().clone();
            if t.elapsed() > limit {
                let path = write_replay(
                    id,
                    0,
                    &json!({"property": id, "key": "no-answer", "case": what, "seed": seed,
                        "detail": format!("no answer within {} s", limit.as_secs())}),
                );
                println!("VIOLATION property={id} replay={path}");
                println!("  the code under test did not return within {} s: {what}", limit.as_secs());
                std::process::exit(1);
            }
        });
        let max_seconds = if tier == "thorough" { 600.0 } else { 150.0 };
        Check {
            id,
            rng: Rng::new(seed, id),
            tier,
            seed,
            rule: rule.to_string(),
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            sets: BTreeMap::new(),
            violations: vec![],
            known,
            known_seen: BTreeMap::new(),
            assumptions: vec![],
            watch,
            max_seconds,
            last: std::fs::File::create(last_case(id)).ok(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `quick` cases in the quick tier, `deep` in the thorough one.
    pub fn n(&self, quick: usize, deep: usize) -> usize {
        if self.thorough() {
            deep
        } else {
            quick
        }
    }
    /// A case loop should stop: enough violations, or the time cap is used up.
    pub fn stop(&self) -> bool {
        self.violations.len() >= 10 || self.start.elapsed().as_secs_f64() > self.max_seconds
    }
    /// Announces the case about to run (for the watchdog).
    pub fn begin(&self, what: &str) {
        *self.watch.lock().unwrap() = (Instant::now(), what.to_string());
        if let Some(f) = &self.last {
            use std::os::unix::fs::FileExt;
            let mut b = what.as_bytes().to_vec();
            b.resize(3000, b' ');
            let _ = f.write_all_at(&b, 0);
        }
    }
    /// One execution judged. `fingerprint` identifies it; `nontrivial` as the rule says.
    pub fn eval(&mut self, fingerprint: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash64(fingerprint));
        }
        *self.watch.lock().unwrap() = (Instant::now(), String::new());
    }
    pub fn count(&mut self, name: &str, by: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += by;
    }
    /// Counts distinct values seen under a name.
    pub fn seen(&mut self, name: &str, value: &[u8]) {
        self.sets
            .entry(name.to_string())
            .or_default()
            .insert(hash64(value));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 5 {
            let mut s = v.to_string();
            if s.len() > 6000 {
                let mut end = 6000;
                while !s.is_char_boundary(end) {
                    end -= 1;
                }
                s.truncate(end);
                self.samples.push(Value::String(s));
            } else {
                self.samples.push(v);
            }
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn evaluations(&self) -> u64 {
        self.evaluations
    }

    /// Reports that the property failed. `key` names what failed, stably across runs: it is
    /// what the known-findings file lists.
    pub fn violation(&mut self, key: &str, detail: Value) {
        if let Some((k, text)) = self.known.iter().find(|(k, _)| k == key).cloned() {
            let n = self.known_seen.entry(k.clone()).or_insert(0);
            if *n == 0 {
                println!("KNOWN-FINDING: property={} {} ({})", self.id, k, text);
            }
            *n += 1;
            return;
        }
        let n = self.violations.len();
        if n < 20 {
            let path = write_replay(
                self.id,
                n,
                &json!({"property": self.id, "key": key, "seed": self.seed, "tier": self.tier, "detail": detail}),
            );
            println!("VIOLATION property={} replay={}", self.id, path);
            let mut d = detail.to_string();
            if d.len() > 700 {
                let mut end = 700;
                while !d.is_char_boundary(end) {
                    end -= 1;
                }
                d.truncate(end);
            }
            println!("  {key}: {d}");
        }
        self.violations.push(key.to_string());
    }

    /// Violation unless `ok`.
    pub fn expect(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            let d = detail();
            self.violation(key, d);
        }
        ok
    }

    /// Runs `f`, reporting a panic as a violation.
    pub fn run<T>(&mut self, key: &str, detail: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(m) => {
                let d = detail();
                self.violation(key, json!({"panic": m, "case": d}));
                None
            }
        }
    }

    pub fn finish(self) -> ! {
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), Value::Array(self.samples.clone()));
        let obs: Map<String, Value> = self
            .counters
            .iter()
            .map(|(k, v)| (k.clone(), json!(v)))
            .chain(
                self.sets
                    .iter()
                    .map(|(k, v)| (format!("distinct {k}"), json!(v.len()))),
            )
            .collect();
        cov.insert("observed".into(), Value::Object(obs));
        if !self.known_seen.is_empty() {
            cov.insert("known_findings_seen".into(), json!(self.known_seen));
        }
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{dir}/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence file");
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}

fn write_replay(id: &str, n: usize, v: &Value) -> String {
    let dir = format!("{}/work/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{n}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
    path
}
