//! The search engine: seeded generation, parallel workers, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fault {
    /// The oracle was contradicted.
    Violation(String),
    /// Something that has to happen did not happen within the limit; needs confirmation.
    Hang(String),
    /// The harness itself could not do its work (no verdict).
    Harness(String),
}
impl From<std::io::Error> for Fault {
    fn from(e: std::io::Error) -> Self {
        Fault::Harness(format!("io error in harness: {}", e))
    }
}
pub type Verdict = Result<Info, Fault>;

#[derive(Debug, Clone, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// Number of oracle evaluations inside the case (1 for simple cases).
    pub units: u64,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info {
            nontrivial,
            classes: Vec::new(),
            units: 1,
        }
    }
    pub fn class<S: Into<String>>(mut self, c: S) -> Self {
        self.classes.push(c.into());
        self
    }
    pub fn class_if<S: Into<String>>(mut self, cond: bool, c: S) -> Self {
        if cond {
            self.classes.push(c.into());
        }
        self
    }
    pub fn units(mut self, n: u64) -> Self {
        self.units = n;
        self
    }
}

#[macro_export]
macro_rules! violation {
    ($($t:tt)*) => { return Err($crate::engine::Fault::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fault::Violation(format!($($t)*))) } };
}

pub trait Property: Send + Sync + 'static {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn assumptions(&self) -> Vec<String> {
        Vec::new()
    }
    /// Number of cases for the quick tier (thorough: until the time budget ends).
    fn cases(&self) -> u64;
    fn workers(&self) -> usize {
        8
    }
    /// Hangs in this property are judged at this limit.
    fn hang_ms(&self) -> u64 {
        10_000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(&self, case: &Self::Case) -> Verdict;
}

pub static HANG_MS: AtomicU64 = AtomicU64::new(10_000);
pub fn hang_limit() -> Duration {
    Duration::from_millis(HANG_MS.load(Ordering::Relaxed))
}

/// Panics recorded by the hook: (thread name, location, message).
pub static PANICS: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let name = std::thread::current().name().unwrap_or("").to_string();
        if std::env::var_os("PBT_DEBUG").is_some() {
            eprintln!("[panic] {} {} {}", name, loc, msg);
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 10_000 {
                p.push((name, loc, msg));
            }
        }
    }));
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("/proptest-")
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

/// Runs one case on a thread of its own (thread-local state of the scheduler never leaks
/// from one case into the next) and turns panics into verdicts.
pub fn run_isolated<P: Property>(prop: &Arc<P>, case: &P::Case) -> Verdict {
    let no = CASE_NO.fetch_add(1, Ordering::Relaxed);
    let name = format!("case-{}", no);
    let prop = Arc::clone(prop);
    let case = case.clone();
    let name2 = name.clone();
    let parent = std::thread::current();
    let th = std::thread::Builder::new()
        .name(name.clone())
        .stack_size(8 << 20)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| prop.run(&case)));
            parent.unpark();
            r
        });
    let th = match th {
        Ok(t) => t,
        Err(e) => return Err(Fault::Harness(format!("cannot start a thread: {}", e))),
    };
    // A case that never gives control back (a loop in the code under test) is abandoned.
    let limit = hang_limit() * 3 + Duration::from_secs(20);
    let begun = Instant::now();
    while !th.is_finished() {
        let t = begun.elapsed();
        if t > limit {
            return Err(Fault::Hang(format!("a case did not come back within {:?}", limit)));
        }
        if t < Duration::from_millis(20) {
            std::thread::park_timeout(Duration::from_micros(30));
        } else {
            std::thread::park_timeout(Duration::from_millis(1));
        }
    }
    let res = th.join();
    let res = match res {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    match res {
        Ok(v) => v,
        Err(_) => {
            let (loc, msg) = PANICS
                .lock()
                .ok()
                .and_then(|p| {
                    p.iter()
                        .rev()
                        .find(|x| x.0 == name2)
                        .map(|x| (x.1.clone(), x.2.clone()))
                })
                .unwrap_or_default();
            if is_harness_location(&loc) {
                Err(Fault::Harness(format!("panic in harness at {}: {}", loc, msg)))
            } else {
                Err(Fault::Violation(format!("panic at {}: {}", loc, msg)))
            }
        }
    }
}

fn seed_bytes(seed: u64, id: &str, index: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let mut mix = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    };
    for b in id.bytes() {
        mix(b);
    }
    for b in index.to_le_bytes() {
        mix(b);
    }
    let mut x = h;
    for chunk in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn runner_for(seed: u64, id: &str, index: u64) -> TestRunner {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, index));
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, rng)
}

fn hash_str(s: &str) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s.as_bytes());
    h.finish()
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    units: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    unconfirmed_hangs: u64,
    harness_errors: Vec<String>,
    regressions: u64,
}

fn clip_text(s: String, max: usize) -> String {
    if s.len() <= max {
        return s;
    }
    let mut n = max;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}... ({} bytes in all)", &s[..n], s.len())
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 3000 {
        v
    } else {
        let mut n = 2900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes in all)", &s[..n], s.len()))
    }
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub root: std::path::PathBuf,
    pub cases: Option<u64>,
    pub budget: Option<u64>,
}

struct Found<C> {
    case: C,
    tree: Option<Box<dyn ValueTree<Value = C>>>,
    fault: Fault,
    origin: String,
}

pub fn run_property<P: Property>(prop: P, opt: &Options) -> i32 {
    let prop = Arc::new(prop);
    let start = Instant::now();
    let id = prop.id();
    HANG_MS.store(prop.hang_ms(), Ordering::Relaxed);
    let (cases, budget) = match opt.tier {
        Tier::Quick => (
            opt.cases.unwrap_or_else(|| prop.cases()),
            Duration::from_secs(opt.budget.unwrap_or(120)),
        ),
        Tier::Thorough => (
            opt.cases.unwrap_or(u64::MAX),
            Duration::from_secs(opt.budget.unwrap_or(600)),
        ),
    };
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Option<(u64, P::Case, Fault)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);

    // Committed regression cases first.
    let mut from_regress: Option<Found<P::Case>> = None;
    let rdir = opt.root.join("regress").join(id);
    let mut files: Vec<_> = std::fs::read_dir(&rdir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().map_or(false, |e| e == "json")) {
        let case: P::Case = match load_case(f) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot read regression case {:?}: {}", f, e);
                return 2;
            }
        };
        track(0, REGRESS | st_index(&files, f));
        let v = run_isolated(&prop, &case);
        let mut st = stats.lock().unwrap();
        st.regressions += 1;
        match record(&mut st, &prop, &case, v) {
            None => {}
            Some(fault) => {
                drop(st);
                if let Some(fault) = confirm(&prop, &case, fault, &stats) {
                    from_regress = Some(Found {
                        case,
                        tree: None,
                        fault,
                        origin: format!("regression case {}", f.display()),
                    });
                    break;
                }
            }
        }
    }

    let next = AtomicU64::new(0);
    if from_regress.is_none() {
        let tier = opt.tier;
        std::thread::scope(|s| {
            for w in 0..prop.workers() {
                let (prop, stats, found, stop, next) = (&prop, &stats, &found, &stop, &next);
                s.spawn(move || {
                    let strategy = prop.strategy(tier);
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases {
                            break;
                        }
                        let mut runner = runner_for(opt.seed, id, i);
                        let tree = match strategy.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                let mut st = stats.lock().unwrap();
                                st.harness_errors.push(format!("generator: {}", e));
                                continue;
                            }
                        };
                        let case = tree.current();
                        track(w, i);
                        let v = run_isolated(prop, &case);
                        let fault = {
                            let mut st = stats.lock().unwrap();
                            record(&mut st, prop, &case, v)
                        };
                        if let Some(fault) = fault {
                            if let Some(fault) = confirm(prop, &case, fault, stats) {
                                let mut fd = found.lock().unwrap();
                                // Keep the smallest index: the report depends less on timing.
                                if fd.as_ref().map_or(true, |x| i < x.0) {
                                    *fd = Some((i, case, fault));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                });
            }
        });
    }

    let found = match from_regress {
        Some(f) => Some(f),
        None => found.into_inner().unwrap().map(|(i, case, fault)| {
            let strategy = prop.strategy(opt.tier);
            let mut runner = runner_for(opt.seed, id, i);
            let tree = strategy
                .new_tree(&mut runner)
                .ok()
                .map(|t| Box::new(t) as Box<dyn ValueTree<Value = P::Case>>);
            Found {
                case,
                tree,
                fault,
                origin: format!("generated case {}", i),
            }
        }),
    };

    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        violations = 1;
        code = 1;
        let (case, fault, steps) = shrink(&prop, f.case, f.fault, f.tree);
        let path = opt
            .root
            .join("replays")
            .join(format!("{}-seed{}.json", id, opt.seed));
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        let msg = match &fault {
            Fault::Violation(m) => m.clone(),
            Fault::Hang(m) => format!("hang (confirmed by repeated runs): {}", m),
            Fault::Harness(m) => m.clone(),
        };
        let msg = clip_text(msg, 1500);
        let doc = serde_json::json!({
            "property": id, "seed": opt.seed, "origin": f.origin, "shrink_steps": steps,
            "message": msg, "case": serde_json::to_value(&case).unwrap(),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        println!("{}: {}", id, msg);
        println!("case: {}", clip(serde_json::to_value(&case).unwrap()));
        println!("VIOLATION property={} replay={}", id, path.display());
    }

    let st = stats.into_inner().unwrap();
    let evidence = serde_json::json!({
        "property": id,
        "tier": if opt.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": opt.seed,
        "level": prop.level(),
        "coverage": {
            "evaluations": st.evaluations,
            "oracle_evaluations": st.units,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(),
            "rule": prop.rule(),
            "classes": st.classes,
            "regression_cases": st.regressions,
            "unconfirmed_hangs": st.unconfirmed_hangs,
            "samples": st.samples,
        },
        "assumptions": prop.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let epath = opt.root.join("evidence").join(format!("{}.json", id));
    let _ = std::fs::create_dir_all(epath.parent().unwrap());
    if let Err(e) = std::fs::write(&epath, serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{}: {} cases ({} oracle evaluations), {} non-trivial, {} distinct, {} unconfirmed hangs, {:.1}s",
        id,
        st.evaluations,
        st.units,
        st.nontrivial,
        st.distinct.len(),
        st.unconfirmed_hangs,
        start.elapsed().as_secs_f64()
    );
    if std::env::var_os("PBT_CLASSES").is_some() {
        for (k, v) in &st.classes {
            println!("    {:<40} {}", k, v);
        }
    }
    if code == 0 {
        // A few cases without a verdict (e.g. an address already in use) are tolerated and
        // reported; many mean that the check itself does not work.
        if !st.harness_errors.is_empty() {
            eprintln!(
                "{} cases without verdict, first: {}",
                st.harness_errors.len(),
                st.harness_errors[0]
            );
            if st.harness_errors.len() as u64 * 50 > st.evaluations {
                code = 2;
            }
        }
        if st.distinct.is_empty() {
            eprintln!("no non-trivial case was run");
            code = 2;
        }
    }
    code
}

fn record<P: Property>(
    st: &mut Stats,
    _prop: &Arc<P>,
    case: &P::Case,
    v: Verdict,
) -> Option<Fault> {
    st.evaluations += 1;
    match v {
        Ok(info) => {
            st.units += info.units;
            for c in info.classes {
                *st.classes.entry(c).or_insert(0) += 1;
            }
            if info.nontrivial {
                st.nontrivial += 1;
                let text = serde_json::to_string(case).unwrap_or_default();
                let new = st.distinct.insert(hash_str(&text));
                let n = st.nontrivial;
                if new && st.samples.len() < 4 && (n == 1 || n == 20 || n == 200 || n == 1000) {
                    st.samples
                        .push(clip(serde_json::to_value(case).unwrap_or_default()));
                }
            }
            None
        }
        Err(Fault::Harness(m)) => {
            if std::env::var_os("PBT_DEBUG").is_some() {
                eprintln!("[harness] {}", m);
            }
            st.harness_errors.push(m);
            None
        }
        Err(f) => Some(f),
    }
}

/// Hangs count only when they happen again and again.
fn confirm<P: Property>(
    prop: &Arc<P>,
    case: &P::Case,
    fault: Fault,
    stats: &Mutex<Stats>,
) -> Option<Fault> {
    match fault {
        Fault::Hang(m) => {
            for _ in 0..2 {
                match run_isolated(prop, case) {
                    Err(Fault::Hang(_)) => {}
                    Err(Fault::Violation(v)) => return Some(Fault::Violation(v)),
                    _ => {
                        stats.lock().unwrap().unconfirmed_hangs += 1;
                        return None;
                    }
                }
            }
            Some(Fault::Hang(m))
        }
        f => Some(f),
    }
}

fn shrink<P: Property>(
    prop: &Arc<P>,
    case: P::Case,
    fault: Fault,
    tree: Option<Box<dyn ValueTree<Value = P::Case>>>,
) -> (P::Case, Fault, u64) {
    let mut tree = match tree {
        Some(t) => t,
        None => return (case, fault, 0),
    };
    let hang = matches!(fault, Fault::Hang(_));
    if hang {
        HANG_MS.store(std::cmp::min(1500, HANG_MS.load(Ordering::Relaxed)), Ordering::Relaxed);
    }
    let deadline = Instant::now() + Duration::from_secs(if hang { 60 } else { 45 });
    let mut best = (case.clone(), fault.clone());
    let mut steps = 0;
    let mut more = tree.simplify();
    while more && steps < 3000 && Instant::now() < deadline {
        steps += 1;
        let c = tree.current();
        let failed = match run_isolated(prop, &c) {
            Err(f @ Fault::Violation(_)) => Some(f),
            Err(f @ Fault::Hang(_)) if hang => Some(f),
            _ => None,
        };
        more = if let Some(f) = failed {
            best = (c, f);
            tree.simplify()
        } else {
            tree.complicate()
        };
    }
    if hang {
        HANG_MS.store(prop.hang_ms(), Ordering::Relaxed);
        match run_isolated(prop, &best.0) {
            Err(Fault::Hang(_)) | Err(Fault::Violation(_)) => {}
            _ => return (case, fault, steps),
        }
    }
    (best.0, best.1, steps)
}

fn load_case<C: DeserializeOwned>(path: &std::path::Path) -> Result<C, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let doc: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    serde_json::from_value(doc["case"].clone()).map_err(|e| e.to_string())
}

pub fn replay_property<P: Property>(prop: P, path: &std::path::Path) -> i32 {
    let prop = Arc::new(prop);
    HANG_MS.store(prop.hang_ms(), Ordering::Relaxed);
    let case: P::Case = match load_case(path) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot read {:?}: {}", path, e);
            return 2;
        }
    };
    println!("{:#?}", case);
    match run_isolated(&prop, &case) {
        Ok(info) => {
            println!("PASS {:?}", info);
            0
        }
        Err(Fault::Violation(m)) | Err(Fault::Hang(m)) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", prop.id(), path.display());
            1
        }
        Err(Fault::Harness(m)) => {
            eprintln!("no verdict: {}", m);
            2
        }
    }
}

// ---------------------------------------------------------------- supervision
//
// A case that takes the whole process down (stack overflow, abort) must still lead to a
// verdict: the search runs in a child which notes the case every worker is at; after a crash
// those cases are run one by one, each in a process of its own.

const REGRESS: u64 = 1 << 62;
const NONE: u64 = u64::MAX;

fn st_index(files: &[std::path::PathBuf], f: &std::path::Path) -> u64 {
    files.iter().position(|x| x == f).unwrap_or(0) as u64
}

fn track(worker: usize, index: u64) {
    use std::os::unix::fs::FileExt;
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = FILE.get_or_init(|| {
        std::env::var_os("PBT_TRACK")
            .and_then(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).ok())
    });
    if let Some(f) = f {
        let _ = f.write_at(&(index + 1).to_le_bytes(), worker as u64 * 8);
    }
}

fn case_at<P: Property>(prop: &P, opt: &Options, index: u64) -> Option<P::Case> {
    if index & REGRESS != 0 {
        let rdir = opt.root.join("regress").join(prop.id());
        let mut files: Vec<_> = std::fs::read_dir(&rdir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        return load_case(files.get((index & !REGRESS) as usize)?).ok();
    }
    let mut runner = runner_for(opt.seed, prop.id(), index);
    let tree = prop.strategy(opt.tier).new_tree(&mut runner).ok()?;
    Some(tree.current())
}

/// Runs the case with this index only.
pub fn run_one<P: Property>(prop: P, opt: &Options, index: u64) -> i32 {
    HANG_MS.store(prop.hang_ms(), Ordering::Relaxed);
    let case = match case_at(&prop, opt, index) {
        Some(c) => c,
        None => return 2,
    };
    match run_isolated(&Arc::new(prop), &case) {
        Ok(_) => 0,
        Err(Fault::Harness(_)) => 2,
        Err(_) => 1,
    }
}

pub fn supervise<P: Property>(prop: P, opt: &Options, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let id = prop.id();
    let dir = opt.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let trackfile = dir.join(format!("{}-{}.track", id, std::process::id()));
    let _ = std::fs::remove_file(&trackfile);
    let start = Instant::now();
    let status = std::process::Command::new(&exe)
        .arg("run-inner")
        .args(&args[1..])
        .env("PBT_TRACK", &trackfile)
        .status();
    let slots: Vec<u64> = std::fs::read(&trackfile)
        .unwrap_or_default()
        .chunks(8)
        .filter(|c| c.len() == 8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()).wrapping_sub(1))
        .filter(|i| *i != NONE)
        .collect();
    let _ = std::fs::remove_file(&trackfile);
    let sig = match status {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c), _) => return c,
            (None, sig) => sig.unwrap_or(0),
        },
        Err(e) => {
            eprintln!("cannot start the search: {}", e);
            return 2;
        }
    };
    eprintln!("the search process ended by signal {}; repeating the last cases", sig);
    for i in slots {
        let died = |i: u64| {
            std::process::Command::new(&exe)
                .arg("run-one")
                .args(&args[1..])
                .args(["--index", &i.to_string()])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .ok()
                .and_then(|s| s.signal())
        };
        // SIGKILL is the kernel's doing (memory), not the case's.
        if let (Some(a), Some(b)) = (died(i), died(i)) {
            if a == 9 || b == 9 {
                continue;
            }
            let case = match case_at(&prop, opt, i) {
                Some(c) => c,
                None => continue,
            };
            let path = dir.join(format!("{}-seed{}.json", id, opt.seed));
            let msg = format!("the process is killed by signal {} while running this case", a);
            let doc = serde_json::json!({
                "property": id, "seed": opt.seed, "origin": format!("case {}", i),
                "message": msg, "case": serde_json::to_value(&case).unwrap(),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            let evidence = serde_json::json!({
                "property": id,
                "tier": if opt.tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": opt.seed, "level": prop.level(),
                "coverage": {
                    "evaluations": i & !REGRESS, "distinct_nontrivial": 1, "rule": prop.rule(),
                    "samples": [clip(serde_json::to_value(&case).unwrap())],
                },
                "assumptions": prop.assumptions(),
                "wall_s": start.elapsed().as_secs_f64(), "violations": 1,
            });
            let epath = opt.root.join("evidence").join(format!("{}.json", id));
            let _ = std::fs::create_dir_all(epath.parent().unwrap());
            let _ = std::fs::write(&epath, serde_json::to_string_pretty(&evidence).unwrap());
            println!("{}: {}", id, msg);
            println!("VIOLATION property={} replay={}", id, path.display());
            return 1;
        }
    }
    eprintln!("no single case repeats the crash");
    2
}
