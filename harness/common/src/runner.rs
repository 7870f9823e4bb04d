//! Runs cases on all cores, collects what the monitors saw, reports violations and writes the evidence.
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Instant,
};

pub type CaseResult = Result<(), String>;

/// What one worker observed
#[derive(Default)]
pub struct Mon {
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    /// (key, detail) of findings
    findings: BTreeMap<String, String>,
    /// Description of the current case, for reports
    pub trace: Vec<String>,
    wants_sample: bool,
}

impl Mon {
    pub fn count(&mut self, key: &str) {
        self.add(key, 1)
    }
    pub fn add(&mut self, key: &str, n: usize) {
        match self.counters.get_mut(key) {
            Some(v) => *v += n as u64,
            None => {
                self.counters.insert(key.to_string(), n as u64);
            }
        }
    }
    /// Records a distinct non-trivial case or observation
    pub fn distinct<T: std::hash::Hash>(&mut self, value: &T) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(crate::model::hash_of(value));
        }
    }
    pub fn note(&mut self, text: impl FnOnce() -> String) {
        self.trace.push(text());
    }
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.wants_sample && self.samples.len() < 3 {
            self.wants_sample = false;
            self.samples.push(text());
        }
    }
    /// A specific failure that may be listed as known
    pub fn finding(&mut self, key: &str, detail: String) {
        self.findings.entry(key.to_string()).or_insert(detail);
    }
}

pub struct Check {
    pub id: &'static str,
    /// How cases are made, and what is counted as distinct and non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// One case, from randomness and a size in 0..=100
    pub case: fn(&mut Rng, usize, &mut Mon) -> CaseResult,
    /// Witnesses of known findings and fixed regressions, run once
    pub probe: Option<fn(&mut Mon) -> CaseResult>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Enormous formulas are not worth printing
fn shortened(text: &str) -> String {
    match text.char_indices().nth(6_000) {
        Some((end, _)) => format!("{}... ({} bytes)", &text[..end], text.len()),
        None => text.to_string(),
    }
}

/// Runs code that may panic, returns the panic message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", location, message)));
    }));
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}

/// Known findings: lines `finding: property=<id> key=<key> <what>`
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut out = BTreeMap::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else {
            continue;
        };
        let Some((property, rest)) = rest.split_once(' ') else {
            continue;
        };
        let Some(rest) = rest.strip_prefix("key=") else {
            continue;
        };
        let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
        if property == id {
            out.insert(key.to_string(), what.to_string());
        }
    }
    out
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = mix(seed ^ 0xA5A5);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index)
}

/// Sizes grow over a run, so that failures are found on small cases first.
fn case_size(index: u64, total: u64) -> usize {
    let ramp = (total / 2).min(20_000);
    if index < ramp {
        (index * 100 / ramp.max(1)) as usize
    } else {
        (mix(index) % 101) as usize
    }
}

struct Failure {
    index: u64,
    seed: u64,
    size: usize,
    message: String,
    trace: Vec<String>,
}

fn run_case(check: &Check, seed: u64, size: usize, mon: &mut Mon) -> CaseResult {
    mon.trace.clear();
    let mut rng = Rng::new(seed);
    match guarded(|| (check.case)(&mut rng, size, mon)) {
        Ok(result) => result,
        Err(panic) => Err(panic),
    }
}

pub fn main(checks: &[Check]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2);
    };
    // A case may recurse deeply, so everything runs on threads with big stacks
    let code = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(1 << 29)
            .spawn_scoped(scope, || {
                if args.get(2).map(|s| s == "--replay") == Some(true) {
                    replay(check, &args[3])
                } else {
                    run(check)
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    });
    std::process::exit(code);
}

fn replay(check: &Check, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let value: Value = serde_json::from_str(&text).expect("replay json");
    let mut mon = Mon::default();
    let result = if value["probe"].as_bool() == Some(true) {
        guarded(|| check.probe.map_or(Ok(()), |p| p(&mut mon))).unwrap_or_else(Err)
    } else {
        let seed: u64 = value["case_seed"].as_str().unwrap().parse().unwrap();
        let size = value["size"].as_u64().unwrap() as usize;
        run_case(check, seed, size, &mut mon)
    };
    for line in &mon.trace {
        println!("  {}", line);
    }
    for (key, detail) in &mon.findings {
        println!("finding {}: {}", key, detail);
    }
    match result {
        Ok(()) => {
            println!("replay: holds");
            0
        }
        Err(message) => {
            println!("replay: {}", message);
            println!("VIOLATION property={} replay={}", check.id, path);
            1
        }
    }
}

fn run(check: &Check) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
    let thorough = tier == "thorough";
    let total = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { check.thorough } else { check.quick });
    // Only a safety valve, the number of cases is what normally ends a run
    let time_limit = if thorough { 780.0 } else { 240.0 };

    let workers = 8u64;
    let stop = AtomicBool::new(false);
    let executed = AtomicU64::new(0);
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let merged: Mutex<Mon> = Mutex::new(Mon::default());
    // For every worker: (1 + index of the running case, start in ms)
    let running: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(
        (0..workers)
            .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
            .collect(),
    );

    {
        // A case normally takes milliseconds
        let running = running.clone();
        let id = check.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            for (index, since) in running.iter() {
                let index = index.load(Ordering::SeqCst);
                if index > 0 && now.saturating_sub(since.load(Ordering::SeqCst)) > 150_000 {
                    let seed = case_seed(seed, id, index - 1);
                    let path = write_replay(
                        id,
                        json!({"property": id, "case_seed": seed.to_string(), "size": case_size(index - 1, total),
                        "index": index - 1, "message": "does not finish"}),
                    );
                    println!("a case does not finish within 150 s");
                    println!("VIOLATION property={} replay={}", id, path);
                    std::process::exit(1);
                }
            }
        });
    }

    std::thread::scope(|scope| {
        for worker in 0..workers {
            let (stop, executed, failures, merged, running) =
                (&stop, &executed, &failures, &merged, &running);
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(scope, move || {
                    let mut mon = Mon::default();
                    let mut index = worker;
                    while index < total {
                        if stop.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > time_limit {
                            break;
                        }
                        let size = case_size(index, total);
                        let case_seed = case_seed(seed, check.id, index);
                        mon.wants_sample = size > 30;
                        running[worker as usize]
                            .1
                            .store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        running[worker as usize].0.store(index + 1, Ordering::SeqCst);
                        let result = run_case(check, case_seed, size, &mut mon);
                        running[worker as usize].0.store(0, Ordering::SeqCst);
                        executed.fetch_add(1, Ordering::Relaxed);
                        if let Err(message) = result {
                            let mut failures = failures.lock().unwrap();
                            failures.push(Failure {
                                index,
                                seed: case_seed,
                                size,
                                message,
                                trace: std::mem::take(&mut mon.trace),
                            });
                            if failures.len() >= 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        index += workers;
                    }
                    let mut all = merged.lock().unwrap();
                    for (key, n) in mon.counters {
                        *all.counters.entry(key).or_default() += n;
                    }
                    all.distinct.extend(mon.distinct);
                    if all.samples.len() < 6 {
                        all.samples.extend(mon.samples);
                    }
                    for (key, detail) in mon.findings {
                        all.findings.entry(key).or_insert(detail);
                    }
                })
                .unwrap();
        }
    });

    let mut mon = merged.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    let mut violations: Vec<(String, Value)> = vec![];
    if let Some(probe) = check.probe {
        mon.trace.clear();
        let result = guarded(|| probe(&mut mon)).unwrap_or_else(Err);
        if let Err(message) = result {
            violations.push((
                format!("probe: {}", message),
                json!({"property": check.id, "probe": true, "message": message, "trace": mon.trace}),
            ));
        }
    }
    failures.sort_by_key(|f| (f.size, f.index));
    let failed = failures.len();
    let mut seen = BTreeSet::new();
    for failure in failures {
        // One report per kind of message
        let kind: String = failure.message.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
        if !seen.insert(kind) || violations.len() >= 5 {
            continue;
        }
        let message = shortened(&failure.message);
        let trace: Vec<String> = failure.trace.iter().map(|line| shortened(line)).collect();
        violations.push((
            format!("{}\n  {}", message, trace.join("\n  ")),
            json!({"property": check.id, "case_seed": failure.seed.to_string(), "size": failure.size,
                "index": failure.index, "message": message, "trace": trace}),
        ));
    }
    let known = known_findings(check.id);
    let mut known_seen = vec![];
    for (key, detail) in &mon.findings {
        match known.get(key) {
            Some(what) => {
                println!("KNOWN-FINDING: property={} {} ({})", check.id, what, key);
                known_seen.push(key.clone());
            }
            None => violations.push((
                format!("{}: {}", key, detail),
                json!({"property": check.id, "probe": true, "message": detail, "key": key}),
            )),
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<String> = mon.samples.iter().take(6).map(|sample| shortened(sample)).collect();
    let coverage = json!({
        "evaluations": executed.load(Ordering::Relaxed),
        "distinct_nontrivial": mon.distinct.len(),
        "rule": check.rule,
        "samples": samples,
        "monitor_counters": mon.counters,
        "known_findings_seen": known_seen,
        "failed_cases": failed,
    });
    let evidence = json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": violations.len(),
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .expect("evidence file");

    println!(
        "{}: {} cases, {} distinct, {:.1} s",
        check.id,
        executed.load(Ordering::Relaxed),
        mon.distinct.len(),
        wall
    );
    if violations.is_empty() {
        return 0;
    }
    for (text, value) in violations {
        println!("{}", printable(&text));
        let path = write_replay(check.id, value);
        println!("VIOLATION property={} replay={}", check.id, path);
    }
    1
}

/// Text without control characters (other than newlines), so that logs stay text files
fn printable(text: &str) -> String {
    let mut result = String::new();
    for c in text.chars() {
        if c.is_control() && c != '\n' {
            result.extend(c.escape_default());
        } else {
            result.push(c);
        }
    }
    result
}

fn write_replay(id: &str, value: Value) -> String {
    let text = serde_json::to_string_pretty(&value).unwrap();
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{}-{:016x}.json", id, crate::model::hash_of(&text)));
    std::fs::write(&path, text).ok();
    path.display().to_string()
}
