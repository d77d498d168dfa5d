//! Check driver: scenarios (proptest strategy + oracle) are cut into chunks, run on all cores with
//! seeds that depend only on VERIF_SEED, shrunk on failure and written out as replay files.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a case that passed covered.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// Signature of a recorded defect that this case hit (see known_findings.json)
    pub finding: Option<(String, String)>,
}

pub fn pass(nontrivial: bool) -> Info {
    Info { nontrivial, ..Default::default() }
}

impl Info {
    pub fn class(mut self, c: impl Into<String>) -> Self {
        self.classes.push(c.into());
        self
    }
    pub fn finding(mut self, sig: &str, what: impl Into<String>) -> Self {
        self.finding = Some((sig.to_string(), what.into()));
        self
    }
}

pub type R = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Run library code; a panic becomes Err(message).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        if !s.is_empty() {
            s
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

/// Outcome of a verifier-like call.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    True,
    False,
    Error(String),
    Panic(String),
}

pub fn verdict<E: std::fmt::Debug>(f: impl FnOnce() -> Result<bool, E>) -> V {
    match quiet(f) {
        Err(p) => V::Panic(p),
        Ok(Err(e)) => V::Error(format!("{:?}", e)),
        Ok(Ok(true)) => V::True,
        Ok(Ok(false)) => V::False,
    }
}

/// Outcome of a prover-like call: the value, an error, or a panic.
pub fn attempt<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match quiet(f) {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(Err(e)) => Err(format!("error: {:?}", e)),
        Ok(Ok(v)) => Ok(v),
    }
}

type RunFn = dyn Fn([u8; 32], u32, &Stats) -> Option<Failure> + Send + Sync;
type ReplayFn = dyn Fn(&Value) -> R + Send + Sync;

pub struct Scenario {
    pub name: String,
    pub quick: u32,
    pub thorough: u32,
    run: Box<RunFn>,
    replay: Box<ReplayFn>,
}

pub struct Failure {
    scenario: String,
    msg: String,
    case: Value,
}

#[derive(Default)]
pub struct Stats {
    inner: Mutex<StatsInner>,
}

#[derive(Default)]
struct StatsInner {
    evaluations: u64,
    per_scenario: BTreeMap<String, (u64, u64)>,
    nontrivial: HashSet<(u64, u64)>,
    classes: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<Value>>,
    findings: BTreeMap<String, (String, u64, Value, String)>,
    secs: BTreeMap<String, f64>,
}

fn hash128(s: &str) -> (u64, u64) {
    use blake2::{Blake2b, Digest};
    let h = Blake2b::digest(s.as_bytes());
    (
        u64::from_le_bytes(h[0..8].try_into().unwrap()),
        u64::from_le_bytes(h[8..16].try_into().unwrap()),
    )
}

impl Stats {
    fn record<C: Serialize>(&self, scenario: &str, case: &C, info: &Info) {
        let text = serde_json::to_string(case).unwrap();
        let key = hash128(&format!("{}|{}", scenario, text));
        let mut g = self.inner.lock().unwrap();
        g.evaluations += 1;
        let distinct = info.nontrivial && g.nontrivial.insert(key);
        let e = g.per_scenario.entry(scenario.to_string()).or_default();
        e.0 += 1;
        if distinct {
            e.1 += 1;
        }
        for c in &info.classes {
            *g.classes.entry(format!("{}: {}", scenario, c)).or_default() += 1;
        }
        if let Some((sig, what)) = &info.finding {
            let v: Value = serde_json::from_str(&text).unwrap();
            let e = g.findings.entry(sig.clone()).or_insert((what.clone(), 0, v, scenario.to_string()));
            e.1 += 1;
        }
        if distinct {
            let s = g.samples.entry(scenario.to_string()).or_default();
            if s.len() < 2 && text.len() < 4000 {
                s.push(serde_json::from_str(&text).unwrap());
            }
        }
    }
}

impl Scenario {
    pub fn new<C, S, F>(name: impl Into<String>, quick: u32, thorough: u32, strat: S, check: F) -> Self
    where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
        S: Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
        F: Fn(&C) -> R + Send + Sync + 'static,
    {
        let name: String = name.into();
        let check = Arc::new(check);
        let guarded = {
            let check = check.clone();
            move |c: &C| -> R {
                match quiet(|| check(c)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panicked: {}", p)),
                }
            }
        };
        let guarded = Arc::new(guarded);
        let g2 = guarded.clone();
        let n2 = name.clone();
        Scenario {
            name: name.clone(),
            quick,
            thorough,
            run: Box::new(move |seed, cases, stats| {
                let config = Config {
                    cases,
                    failure_persistence: None,
                    max_shrink_iters: 3000,
                    max_shrink_time: 45_000,
                    max_global_rejects: cases * 4 + 64,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                let mut runner = TestRunner::new_with_rng(config, rng);
                let start = Instant::now();
                let failed = std::cell::Cell::new(false);
                let res = runner.run(&strat(), |case| match guarded(&case) {
                    Ok(info) => {
                        if !failed.get() {
                            stats.record(&n2, &case, &info);
                        }
                        Ok(())
                    }
                    Err(m) => {
                        failed.set(true);
                        Err(TestCaseError::fail(m))
                    }
                });
                let mut g = stats.inner.lock().unwrap();
                *g.secs.entry(n2.clone()).or_default() += start.elapsed().as_secs_f64();
                drop(g);
                match res {
                    Ok(()) => None,
                    Err(TestError::Fail(reason, case)) => Some(Failure {
                        scenario: n2.clone(),
                        msg: reason.message().to_string(),
                        case: serde_json::to_value(&case).unwrap(),
                    }),
                    Err(TestError::Abort(r)) => {
                        eprintln!("generator of {} gave up: {}", n2, r.message());
                        std::process::exit(3);
                    }
                }
            }),
            replay: Box::new(move |v| {
                let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {}", e))?;
                g2(&c)
            }),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn() -> Vec<Scenario>,
}

/// Seconds spent in shrinking and running are bounded by the number of cases only; this is a
/// safety net that ends a hanging run as an error (never as a violation).
fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no result after {} s", limit);
        std::process::exit(4);
    });
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Is this defect recorded in the known-findings file?
fn listed(id: &str, sig: &str) -> bool {
    let known: Value = std::fs::read_to_string(root().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({"findings": []}));
    known["findings"]
        .as_array()
        .map_or(false, |v| v.iter().any(|f| f["status"] == "known" && f["property"] == id && f["signature"] == sig))
}

/// Pools with a given number of threads, built on first use.
pub fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    static POOLS: Mutex<BTreeMap<usize, Arc<rayon::ThreadPool>>> = Mutex::new(BTreeMap::new());
    let pool = {
        let mut g = POOLS.lock().unwrap();
        g.entry(n)
            .or_insert_with(|| {
                Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().unwrap())
            })
            .clone()
    };
    pool.install(f)
}

fn usage() -> ! {
    eprintln!("usage: <bin> check <ID> [--scenario NAME] | replay <file> | list");
    std::process::exit(2)
}

pub fn main(props: &[Property]) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                for s in (p.scenarios)() {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
        }
        Some("replay") => {
            let file = args.get(1).unwrap_or_else(|| usage());
            let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let p = props.iter().find(|p| p.id == id).expect("property of another binary");
            let name = v["scenario"].as_str().unwrap();
            let s = (p.scenarios)().into_iter().find(|s| s.name == name).expect("unknown scenario");
            let r = with_threads(1, || (s.replay)(&v["case"]));
            match r {
                Ok(Info { finding: Some((sig, what)), .. }) if !listed(id, &sig) => {
                    println!("reproduced: {}: {}", sig, what);
                    println!("VIOLATION property={} replay={}", id, file);
                    std::process::exit(1);
                }
                Ok(i) => println!("held: {:?}", i),
                Err(m) => {
                    println!("reproduced: {}", m);
                    println!("VIOLATION property={} replay={}", id, file);
                    std::process::exit(1);
                }
            }
        }
        Some("check") => {
            let id = args.get(1).unwrap_or_else(|| usage());
            let only = args.iter().position(|a| a == "--scenario").map(|i| args[i + 1].clone());
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
            std::process::exit(check(p, only));
        }
        _ => usage(),
    }
}

fn check(p: &Property, only: Option<String>) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    watchdog(if thorough { 6 * 3600 } else { 780 });
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // the pass without debug assertions (see check.sh) explores fewer cases, with other random choices
    let lean = std::env::var("VERIF_PASS").map_or(false, |v| v == "lean");
    let scale = if lean { scale * 0.2 } else { scale };
    let lean_file = root().join("harness/target").join(format!("lean-{}.json", p.id));
    let workers: usize = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);

    let scenarios: Vec<Scenario> = (p.scenarios)()
        .into_iter()
        .filter(|s| only.as_ref().map_or(true, |o| s.name.contains(o)))
        .collect();
    let mut jobs: Vec<(usize, u32, u32)> = Vec::new();
    for (i, s) in scenarios.iter().enumerate() {
        let cases = ((if thorough { s.thorough } else { s.quick }) as f64 * scale).ceil() as u32;
        let chunks = if cases >= 64 { 16 } else { cases.min(8) }.max(1);
        for k in 0..chunks {
            let n = cases / chunks + u32::from(k < cases % chunks);
            if n > 0 {
                jobs.push((i, k, n));
            }
        }
    }
    // interleave the scenarios
    jobs.sort_by_key(|j| (j.1, j.0));
    let stats = Stats::default();
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let (i, k, n) = jobs[j];
                    let s = &scenarios[i];
                    let mut h = [0u8; 32];
                    let (a, b) = hash128(&format!("{}|{}|{}|{}|{}{}", seed, p.id, s.name, k, tier, if lean { "|lean" } else { "" }));
                    h[..8].copy_from_slice(&a.to_le_bytes());
                    h[8..16].copy_from_slice(&b.to_le_bytes());
                    if let Some(f) = pool.install(|| (s.run)(h, n, &stats)) {
                        stop.store(true, Ordering::SeqCst);
                        let mut g = failure.lock().unwrap();
                        if g.is_none() {
                            *g = Some(f);
                        }
                    }
                }
            });
        }
    });

    let mut code = 0;
    let mut violations = 0;
    let st = stats.inner.into_inner().unwrap();
    let mut fail = failure.into_inner().unwrap();
    for (sig, (what, n, case, scenario)) in &st.findings {
        if listed(p.id, sig) {
            println!("KNOWN-FINDING: property={} {} ({} cases of this run)", p.id, what, n);
        } else if fail.is_none() {
            fail = Some(Failure { scenario: scenario.clone(), msg: format!("{}: {}", sig, what), case: case.clone() });
        }
    }
    if let Some(f) = fail {
        code = 1;
        violations = 1;
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let body = json!({"property": p.id, "scenario": f.scenario, "message": f.msg, "case": f.case});
        let text = serde_json::to_string_pretty(&body).unwrap();
        let file = dir.join(format!("{}-{:016x}.json", p.id, hash128(&text).0));
        std::fs::write(&file, text).unwrap();
        println!("{}: {}", f.scenario, f.msg);
        println!("VIOLATION property={} replay={}", p.id, file.display());
    }
    let samples: Vec<Value> = st
        .samples
        .iter()
        .flat_map(|(n, v)| v.iter().map(move |c| json!({"scenario": n, "case": c})))
        .collect();
    let per: BTreeMap<String, Value> = st
        .per_scenario
        .iter()
        .map(|(n, (e, d))| {
            (n.clone(), json!({"evaluations": e, "distinct_nontrivial": d, "cpu_s": (st.secs.get(n).unwrap_or(&0.0) * 10.0).round() / 10.0}))
        })
        .collect();
    if lean {
        let v = json!({"evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial.len(), "wall_s": start.elapsed().as_secs_f64()});
        let _ = std::fs::write(&lean_file, v.to_string());
    }
    let lean_pass: Value = std::fs::read_to_string(&lean_file)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "scenarios": per,
            "classes": st.classes,
            "pass_without_debug_assertions": lean_pass,
            "known_findings_hit": st.findings.iter().map(|(k, v)| (k.clone(), v.1)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    if only.is_none() {
        std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{}{} {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id,
        if lean { " (without debug assertions)" } else { "" },
        st.evaluations,
        st.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (n, v) in &per {
            println!("  {:40} {}", n, v);
        }
    }
    if std::env::var("VERIF_VERBOSE").map_or(false, |v| v == "2") {
        for (n, v) in &st.classes {
            println!("     {:60} {}", n, v);
        }
    }
    code
}
