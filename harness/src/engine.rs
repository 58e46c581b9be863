//! Engine: runs sub-checks (strategy + oracle) over sharded, seeded proptest runners, shrinks
//! failures, writes replay files and the evidence file.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const SHARDS: u32 = 8;
/// A single case running longer than this is an inconclusive run (exit 2), never a violation.
const WATCHDOG_S: u64 = 240;

#[derive(Default, Debug, Clone)]
pub struct Out {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub known: Option<&'static str>,
}
pub type R = Result<Out, String>;

pub fn ok() -> R {
    Ok(Out { nontrivial: true, ..Default::default() })
}
pub fn ok_if(nontrivial: bool) -> R {
    Ok(Out { nontrivial, ..Default::default() })
}
pub fn ok_l(nontrivial: bool, labels: Vec<String>) -> R {
    Ok(Out { nontrivial, labels, known: None })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct SubStats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<&'static str, (u64, String)>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, Value)>,
    pub known_keys: HashSet<String>,
    root: PathBuf,
    rules: Vec<String>,
    evals: u64,
    nontrivial: u64,
    subs: BTreeMap<String, Value>,
    samples: Vec<Value>,
    known_lines: Vec<String>,
    violation: Option<(PathBuf, String)>,
    start: Instant,
    pub only: Option<String>,
    pub assumptions: Vec<String>,
    replay_hit: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`, turning a panic of the tested code into an Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a, stable across runs
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(seed: u64, id: &str, sub: &str, shard: u32) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut h = hash_str(&format!("{seed}/{id}/{sub}/{shard}"));
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&h.to_le_bytes());
        h = hash_str(&format!("{h}"));
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

/// Case-count multipliers (quick, thorough) per property, chosen so that a quick check takes roughly ten seconds
/// and a thorough one a few minutes on eight cores.
fn boost(id: &str) -> (u32, u32) {
    // development aid only (mutation runs)
    if let Some(b) = std::env::var("VERIF_BOOST").ok().and_then(|s| s.parse().ok()) {
        return (b, b);
    }
    match id {
        "C01" | "C05" => (8, 12),
        "C12" => (120, 120),
        "C13" => (40, 40),
        "C18" => (24, 24),
        "C20" | "C21" => (60, 60),
        "C19" => (45, 45),
        "C02" | "C06" | "C07" => (12, 16),
        "C04" => (10, 15),
        "C17" => (20, 20),
        "C03" => (10, 12),
        "C15" => (30, 30),
        "C14" | "C22" => (10, 10),
        "C16" => (20, 20),
        "C28" => (20, 20),
        _ => (30, 30),
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<(String, Value)>, root: PathBuf, only: Option<String>) -> Ctx {
        let mut known_keys = HashSet::new();
        if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("known: ") {
                    let mut prop = None;
                    let mut key = None;
                    for w in rest.split_whitespace() {
                        if let Some(p) = w.strip_prefix("property=") { prop = Some(p.to_string()); }
                        if let Some(k) = w.strip_prefix("key=") { key = Some(k.to_string()); }
                    }
                    if prop.as_deref() == Some(id) {
                        if let Some(k) = key { known_keys.insert(k); }
                    }
                }
            }
        }
        Ctx {
            id: id.into(), tier, seed, replay, known_keys, root, rules: vec![], evals: 0, nontrivial: 0,
            subs: BTreeMap::new(), samples: vec![], known_lines: vec![], violation: None,
            start: Instant::now(), only, assumptions: vec![], replay_hit: false,
        }
    }

    /// Declares and runs one sub-check.
    pub fn sub<S, F, M>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, mk: M, f: F)
    where
        M: Fn() -> S + Sync,
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
        F: Fn(&S::Value) -> R + Sync,
    {
        let known_keys = self.known_keys.clone();
        let eval = |v: &S::Value| -> R {
            match guarded(|| f(v)) {
                Ok(r) => match r {
                    Ok(o) => match o.known {
                        Some(k) if !known_keys.contains(k) => Err(format!("defect [{k}] (not listed as a known finding)")),
                        _ => Ok(o),
                    },
                    Err(e) => Err(e),
                },
                Err(p) => Err(p),
            }
        };
        if let Some((rsub, input)) = self.replay.clone() {
            if rsub != name {
                return;
            }
            self.replay_hit = true;
            let v: S::Value = match serde_json::from_value(input) {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("replay file does not decode: {e}");
                    std::process::exit(2);
                }
            };
            match eval(&v) {
                Ok(o) => println!("replay {}: holds ({:?})", name, o),
                Err(e) => {
                    println!("replay {}: {}", name, e);
                    self.violation = Some((PathBuf::from("(given)"), e));
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        self.rules.push(format!("{name}: {rule}"));
        let (bq, bt) = boost(&self.id);
        let total = match self.tier {
            Tier::Quick => quick * bq,
            Tier::Thorough => thorough * bt,
        };
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let all = Mutex::new(SubStats::default());
        let fails: Mutex<BTreeMap<u32, (String, String)>> = Mutex::new(BTreeMap::new());
        let epoch = Instant::now();
        let beats: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(u64::MAX)).collect());
        let done = Arc::new(AtomicBool::new(false));
        {
            let beats = beats.clone();
            let done = done.clone();
            let nm = name.to_string();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                let now = epoch.elapsed().as_secs();
                for b in beats.iter() {
                    let s = b.load(Ordering::SeqCst);
                    if s != u64::MAX && now > s + WATCHDOG_S {
                        eprintln!("ERROR: a single case of {nm} ran for more than {WATCHDOG_S} s; inconclusive");
                        std::process::exit(2);
                    }
                }
            });
        }
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let cases = total / SHARDS + u32::from(shard < total % SHARDS);
                let (stop, all, fails, mk, eval, beats) = (&stop, &all, &fails, &mk, &eval, &beats);
                let (id, seed) = (self.id.clone(), self.seed);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        if cases == 0 {
                            return;
                        }
                        let cfg = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_global_rejects: cases.saturating_mul(20).max(1000),
                            max_local_rejects: 1_000_000,
                            source_file: None,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(cfg, rng_for(seed, &id, name, shard));
                        let st = RefCell::new(SubStats::default());
                        let failed = RefCell::new(false);
                        let strat = mk();
                        let res = runner.run(&strat, |v| {
                            let mine = *failed.borrow();
                            if !mine && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            beats[shard as usize].store(epoch.elapsed().as_secs(), Ordering::SeqCst);
                            let r = eval(&v);
                            beats[shard as usize].store(u64::MAX, Ordering::SeqCst);
                            match r {
                                Ok(o) => {
                                    if !mine {
                                        let mut s = st.borrow_mut();
                                        s.evals += 1;
                                        if o.nontrivial || o.known.is_some() {
                                            let js = serde_json::to_string(&v).unwrap_or_default();
                                            if o.nontrivial {
                                                s.nontrivial.insert(hash_str(&js));
                                                if s.samples.len() < 12 && js.len() < 4000 {
                                                    s.samples.push(js.clone());
                                                }
                                            }
                                            if let Some(k) = o.known {
                                                let e = s.known.entry(k).or_insert((0, js));
                                                e.0 += 1;
                                            }
                                        }
                                        for l in o.labels {
                                            *s.labels.entry(l).or_insert(0) += 1;
                                        }
                                    }
                                    Ok(())
                                }
                                Err(e) => {
                                    *failed.borrow_mut() = true;
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(_, v)) => {
                                let e = eval(&v).err().unwrap_or_else(|| "not reproducible".into());
                                fails.lock().unwrap().insert(shard, (serde_json::to_string(&v).unwrap(), e));
                            }
                            Err(TestError::Abort(r)) => {
                                eprintln!("ERROR: generator of {name} aborted: {r}");
                                std::process::exit(2);
                            }
                        }
                        let s = st.into_inner();
                        let mut a = all.lock().unwrap();
                        a.evals += s.evals;
                        a.nontrivial.extend(s.nontrivial);
                        a.samples.extend(s.samples);
                        for (k, v) in s.labels {
                            *a.labels.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in s.known {
                            let e = a.known.entry(k).or_insert((0, v.1));
                            e.0 += v.0;
                        }
                    })
                    .unwrap();
            }
        });
        done.store(true, Ordering::SeqCst);
        let mut a = all.into_inner().unwrap();
        self.evals += a.evals;
        self.nontrivial += a.nontrivial.len() as u64;
        a.samples.sort_by_key(|s| (s.len(), s.clone()));
        a.samples.truncate(2);
        for s in &a.samples {
            self.samples.push(json!({"sub": name, "input": serde_json::from_str::<Value>(s).unwrap_or(Value::Null)}));
        }
        self.subs.insert(
            name.into(),
            json!({"evaluations": a.evals, "distinct_nontrivial": a.nontrivial.len(), "classes": a.labels,
                   "known_finding_hits": a.known.iter().map(|(k,v)| (k.to_string(), v.0)).collect::<BTreeMap<_,_>>(),
                   "wall_s": t0.elapsed().as_secs_f64()}),
        );
        for (k, v) in &a.known {
            let mut ex = v.1.clone();
            if ex.len() > 300 { ex = ex.chars().take(300).collect(); }
            self.known_lines.push(format!("KNOWN-FINDING: property={} {} ({} of {} cases of {}, e.g. {})", self.id, k, v.0, a.evals, name, ex));
        }
        let fails = fails.into_inner().unwrap();
        if let Some((_, (js, e))) = fails.iter().min_by_key(|(s, f)| (f.0.len(), **s)) {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", self.id, name));
            let v: Value = serde_json::from_str(js).unwrap_or(Value::Null);
            let body = json!({"property": self.id, "sub": name, "seed": self.seed, "error": e, "input": v});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            eprintln!("FAIL {}/{}: {}\n  input: {}", self.id, name, e, js.chars().take(3000).collect::<String>());
            self.violation = Some((path, e.clone()));
        }
        if std::env::var("VERIF_PROGRESS").is_ok() {
            eprintln!("{}/{}: {} evals, {} nontrivial, {:.1}s {:?}", self.id, name, a.evals, a.nontrivial.len(), t0.elapsed().as_secs_f64(), a.labels);
        }
    }

    pub fn finish(self) -> i32 {
        if let Some((sub, _)) = &self.replay {
            if !self.replay_hit {
                eprintln!("no sub-check {sub} in {}", self.id);
                return 2;
            }
            return if self.violation.is_some() { 1 } else { 0 };
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": self.nontrivial,
                "rule": self.rules.join(" | "),
                "samples": self.samples,
                "sub_checks": self.subs,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if self.violation.is_some() {1} else {0},
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for l in &self.known_lines {
            println!("{l}");
        }
        if let Some((p, e)) = &self.violation {
            println!("{}", e.lines().next().unwrap_or(""));
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        println!("{}: held on {} cases ({} distinct non-trivial)", self.id, self.evals, self.nontrivial);
        0
    }
}
