//! Check engine: drives proptest strategies deterministically from VERIF_SEED, shards the work
//! over threads, shrinks failures, writes replay files and evidence.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable identification of what failed (used to match known findings)
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

pub fn err(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail { sig: sig.into(), msg: msg.into() }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::engine::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) });
        }
    };
}

/// Per case bookkeeping filled in by the property function
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Case {
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
    pub fn hit_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct ShardOut {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, Fail)>,
    pub known: BTreeMap<String, u64>,
}

pub trait Sub: Send + Sync {
    fn name(&self) -> String;
    fn cases(&self, tier: Tier) -> u32;
    fn shards(&self) -> u32;
    fn run(&self, seed: u64, shard: u32, cases: u32, known: &HashSet<String>, mode: &Mode) -> ShardOut;
    fn replay(&self, v: &Value) -> Res;
}

/// What `Sub::run` evaluates
pub enum Mode<'a> {
    /// All cases; the position is recorded for the watching process
    All(&'a Slot<'a>),
    /// A single case, in this process or by `eval`
    One {
        index: u64,
        #[allow(clippy::type_complexity)]
        eval: Option<&'a dyn Fn(&str, Value) -> Res>,
    },
}

struct SubImpl<S, M, F> {
    name: String,
    quick: u32,
    thorough: u32,
    shards: u32,
    shrink: u32,
    make: M,
    f: F,
    _p: std::marker::PhantomData<fn() -> S>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Run `f`; a panic becomes Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

fn guarded<V, F: Fn(&V, &mut Case) -> Res>(f: &F, v: &V, c: &mut Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(v, c))) {
        Ok(r) => r,
        Err(_) => fail("panic", format!("panicked: {}", take_panic())),
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a, stable over runs
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 ^= *b as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl<S, M, F> Sub for SubImpl<S, M, F>
where
    S: Strategy,
    S::Value: Serialize + DeserializeOwned + Debug + Clone,
    M: Fn() -> S + Send + Sync,
    F: Fn(&S::Value, &mut Case) -> Res + Send + Sync,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn shards(&self) -> u32 {
        self.shards
    }

    fn run(&self, seed: u64, shard: u32, cases: u32, known: &HashSet<String>, mode: &Mode) -> ShardOut {
        let mut bytes = [0u8; 32];
        let mut h = hash64(&(seed, shard, self.name.as_str()));
        for chunk in bytes.chunks_mut(8) {
            chunk.copy_from_slice(&h.to_le_bytes());
            h = hash64(&h);
        }
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: self.shrink,
            max_shrink_time: 60_000,
            max_global_rejects: 0,
            max_flat_map_regens: 1000,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = (self.make)();
        let out = RefCell::new(ShardOut::default());
        let failed = RefCell::new(false);
        let last_fail: RefCell<Option<Fail>> = RefCell::new(None);

        let index = std::cell::Cell::new(0u64);
        let result = runner.run(&strat, |v| {
            let mut case = Case::default();
            let i = index.get();
            if !*failed.borrow() {
                index.set(i + 1);
            }
            let r = match mode {
                Mode::All(p) => {
                    // while shrinking, the case that failed
                    p.at(if *failed.borrow() { i - 1 } else { i });
                    guarded(&self.f, &v, &mut case)
                }
                Mode::One { index, eval } => {
                    if i < *index {
                        Ok(())
                    } else {
                        match eval {
                            None => guarded(&self.f, &v, &mut case),
                            Some(e) => e(&self.name, serde_json::to_value(&v).unwrap_or(Value::Null)),
                        }
                    }
                }
            };
            if !*failed.borrow() {
                let mut o = out.borrow_mut();
                o.evals += 1;
                for l in case.labels.drain(..) {
                    *o.labels.entry(l).or_insert(0) += 1;
                }
                if case.nontrivial {
                    let js = serde_json::to_vec(&v).unwrap_or_default();
                    o.nontrivial.insert(hash64(&(self.name.as_str(), &js[..])));
                    if o.samples.len() < 2 && js.len() < 1500 {
                        let s = serde_json::to_value(&v).unwrap_or(Value::Null);
                        o.samples.push(s);
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => {
                    if known.contains(&e.sig) {
                        if !*failed.borrow() {
                            *out.borrow_mut().known.entry(e.sig.clone()).or_insert(0) += 1;
                        }
                        return Ok(());
                    }
                    *failed.borrow_mut() = true;
                    *last_fail.borrow_mut() = Some(e.clone());
                    Err(TestCaseError::fail(e.msg))
                }
            }
        });
        let mut out = out.into_inner();
        match result {
            Ok(()) => {}
            Err(TestError::Fail(_, v)) => {
                // Re-evaluate the minimal value, so that the message belongs to it
                let mut c = Case::default();
                let again = match mode {
                    Mode::One { eval: Some(_), .. } => Err(last_fail.borrow().clone().unwrap()),
                    _ => guarded(&self.f, &v, &mut c),
                };
                let e = match again {
                    Err(e) => e,
                    Ok(()) => {
                        let mut e = last_fail.into_inner().unwrap();
                        e.msg = format!("(did not fail again when re-run) {}", e.msg);
                        e
                    }
                };
                out.failure = Some((serde_json::to_value(&v).unwrap_or(Value::Null), e));
            }
            Err(TestError::Abort(r)) => {
                eprintln!("harness error: {} aborted: {}", self.name, r);
                std::process::exit(4);
            }
        }
        out
    }

    fn replay(&self, v: &Value) -> Res {
        let v: S::Value = serde_json::from_value(v.clone()).map_err(|e| Fail {
            sig: "replay-decode".into(),
            msg: e.to_string(),
        })?;
        let mut c = Case::default();
        guarded(&self.f, &v, &mut c)
    }
}

pub struct SubOpts {
    pub shards: u32,
    pub shrink: u32,
}

pub fn sub_with<S, M, F>(
    name: &str,
    quick: u32,
    thorough: u32,
    opts: SubOpts,
    make: M,
    f: F,
) -> Box<dyn Sub>
where
    S: Strategy + 'static,
    S::Value: Serialize + DeserializeOwned + Debug + Clone,
    M: Fn() -> S + Send + Sync + 'static,
    F: Fn(&S::Value, &mut Case) -> Res + Send + Sync + 'static,
{
    Box::new(SubImpl {
        name: name.to_string(),
        quick,
        thorough,
        shards: opts.shards,
        shrink: opts.shrink,
        make,
        f,
        _p: std::marker::PhantomData,
    })
}

pub fn sub<S, M, F>(name: &str, quick: u32, thorough: u32, make: M, f: F) -> Box<dyn Sub>
where
    S: Strategy + 'static,
    S::Value: Serialize + DeserializeOwned + Debug + Clone,
    M: Fn() -> S + Send + Sync + 'static,
    F: Fn(&S::Value, &mut Case) -> Res + Send + Sync + 'static,
{
    sub_with(
        name,
        quick,
        thorough,
        SubOpts {
            shards: 8,
            shrink: 3000,
        },
        make,
        f,
    )
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Box<dyn Sub>>,
}

#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
    /// A concrete failing value of the sub check
    pub value: Value,
}

pub fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(path) else {
        return vec![];
    };
    text.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| match serde_json::from_str::<Known>(l) {
            Ok(k) => Some(k),
            Err(e) => {
                eprintln!("bad known finding line: {e}: {l}");
                std::process::exit(4)
            }
        })
        .filter(|k| k.property == prop)
        .collect()
}

fn short(s: &str, n: usize) -> String {
    let s = s.replace('\n', " ");
    if s.chars().count() > n {
        let t: String = s.chars().take(n).collect();
        format!("{t}…")
    } else {
        s
    }
}

/// Returns the process exit code
/// Build with a memory error detector: evaluate one of so many cases
fn memory() -> Option<u32> {
    std::env::var("VERIF_MEMORY").ok()?.parse().ok().filter(|n| *n > 0)
}

fn evidence_path(root: &str, id: &str) -> String {
    match memory() {
        Some(_) => format!("{root}/harness/target-memory/{id}.json"),
        None => format!("{root}/evidence/{id}.json"),
    }
}

fn replay_path(root: &str, id: &str, name: &str, n: u32) -> String {
    let how = if memory().is_some() { "memory-" } else { "" };
    format!("{root}/replays/{id}-{how}{name}-{n}.json")
}

fn run_property(prop: Property, tier: Tier, seed: u64, root: &str, only: Option<&str>, progress: &Progress) -> i32 {
    let start = std::time::Instant::now();
    let known = load_known(&format!("{root}/known-findings.jsonl"), prop.id);

    let mut violations: Vec<(String, Value, Fail)> = vec![];
    let mut replayed = 0u64;

    // Saved regressions first: shrunk failures of defects found earlier
    let dir = format!("{root}/regressions/{}", prop.id);
    let files = sorted_files(&dir);
    let slot = progress.slot(0);
    for (i, file) in files.into_iter().enumerate() {
        slot.task(REGRESSION, 0);
        slot.at(i as u64);
        let Ok(text) = std::fs::read_to_string(&file) else { continue };
        let v: Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("bad regression {}: {e}", file.display());
                return 4;
            }
        };
        let name = v["sub"].as_str().unwrap_or("");
        if let Some(s) = prop.subs.iter().find(|s| s.name() == name) {
            replayed += 1;
            if let Err(e) = s.replay(&v["value"]) {
                if e.sig == "replay-decode" {
                    eprintln!("bad regression {}: {}", file.display(), e.msg);
                    return 4;
                }
                if !known.iter().any(|k| k.sub == name && k.sig == e.sig) {
                    violations.push((name.to_string(), v["value"].clone(), e));
                }
            }
        } else {
            eprintln!("regression {} names an unknown sub check", file.display());
            return 4;
        }
    }

    // Known findings: reproduce each one
    let mut known_lines = vec![];
    for (i, k) in known.iter().enumerate() {
        slot.task(KNOWN, 0);
        slot.at(i as u64);
        let Some(s) = prop.subs.iter().find(|s| s.name() == k.sub) else {
            eprintln!("known finding names an unknown sub check {}", k.sub);
            return 4;
        };
        match s.replay(&k.value) {
            Err(e) if e.sig == k.sig => {
                known_lines.push(format!("KNOWN-FINDING: property={} {}", prop.id, k.what))
            }
            Err(e) => violations.push((k.sub.clone(), k.value.clone(), e)),
            Ok(()) => {}
        }
    }

    slot.done();
    struct Task {
        sub: usize,
        shard: u32,
        cases: u32,
    }
    let mut tasks = vec![];
    for (i, s) in prop.subs.iter().enumerate() {
        if let Some(o) = only {
            if s.name() != o {
                continue;
            }
        }
        let total = s.cases(tier).div_ceil(memory().unwrap_or(1));
        let n = s.shards().min(total.max(1));
        for shard in 0..n {
            let cases = total / n + u32::from(shard < total % n);
            if cases > 0 {
                tasks.push(Task { sub: i, shard, cases });
            }
        }
    }
    let next = AtomicUsize::new(0);
    let subs = Arc::new(prop.subs);
    let results: Mutex<Vec<(usize, u32, ShardOut)>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let profile = std::env::var("VERIF_PROFILE").is_ok();
    std::thread::scope(|scope| {
        for thread in 0..threads {
            let slot = progress.slot(thread);
            let (next, tasks, subs, known, results) = (&next, &tasks, &subs, &known, &results);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tasks.len() {
                        slot.done();
                        break;
                    }
                    let t = &tasks[i];
                    let s = &subs[t.sub];
                    let ks: HashSet<String> = known
                        .iter()
                        .filter(|k| k.sub == s.name())
                        .map(|k| k.sig.clone())
                        .collect();
                    let t0 = std::time::Instant::now();
                    slot.task(t.sub as u64, t.shard as u64);
                    let out = s.run(seed, t.shard, t.cases, &ks, &Mode::All(&slot));
                    if profile {
                        eprintln!("{} shard {}: {} cases {:.2}s", s.name(), t.shard, t.cases, t0.elapsed().as_secs_f64());
                    }
                    results.lock().unwrap().push((t.sub, t.shard, out));
                })
                .unwrap();
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));

    let mut evals = replayed;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut per_sub: BTreeMap<String, Value> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (i, s) in subs.iter().enumerate() {
        let mut e = 0u64;
        let mut d: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut sampled = 0;
        for (j, _, out) in results.iter().filter(|r| r.0 == i) {
            debug_assert_eq!(i, *j);
            e += out.evals;
            d.extend(&out.nontrivial);
            for (k, v) in &out.labels {
                *labels.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &out.known {
                *known_hits.entry(k.clone()).or_insert(0) += v;
            }
            if sampled < 2 {
                if let Some(v) = out.samples.first() {
                    samples.push(json!({"check": s.name(), "case": v}));
                    sampled += 1;
                }
            }
            if let Some((v, f)) = &out.failure {
                violations.push((s.name(), v.clone(), f.clone()));
            }
        }
        if e > 0 {
            per_sub.insert(
                s.name(),
                json!({"evaluations": e, "distinct_nontrivial": d.len(), "classes": labels}),
            );
        }
        evals += e;
        distinct.extend(d);
    }

    // what the build with a memory error detector covered before
    let memory_run = match std::env::var("VERIF_MEMORY_RUN") {
        Ok(p) => {
            let v: Option<Value> = std::fs::read_to_string(p).ok().and_then(|t| serde_json::from_str(&t).ok());
            v.map_or(json!("not available"), |v| json!({"detector": "AddressSanitizer (Rust and libwebp)", "evaluations": v["coverage"]["evaluations"], "distinct_nontrivial": v["coverage"]["distinct_nontrivial"], "wall_s": v["wall_s"]}))
        }
        Err(_) => json!("not part of this check"),
    };
    let evidence = json!({
        "property": prop.id,
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "per_check": per_sub,
            "regressions_replayed": replayed,
            "known_finding_hits": known_hits,
            "memory_errors": memory_run,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        if let Err(e) = std::fs::write(
            evidence_path(root, prop.id),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        ) {
            eprintln!("cannot write the evidence: {e}");
            return 4;
        }
    }

    for l in &known_lines {
        println!("{l}");
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s",
        prop.id,
        evals,
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    for (k, v) in &per_sub {
        println!("  {k}: {} / {}", v["evaluations"], v["distinct_nontrivial"]);
    }
    if violations.is_empty() {
        return 0;
    }
    let out_dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&out_dir);
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    for (name, value, f) in violations {
        let n = seen.entry(name.clone()).or_insert(0);
        let path = replay_path(root, prop.id, &name, *n);
        *n += 1;
        if *n > 3 {
            continue;
        }
        let doc = json!({"property": prop.id, "sub": name, "sig": f.sig, "message": f.msg, "value": value});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n");
        println!("  failed {name} [{}]: {}", f.sig, short(&f.msg, 1200));
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    1
}

// ---------------------------------------------------------------------------- watching process
//
// Every check runs in a process of its own that records in a small file which case each of its
// threads evaluates. If it is killed by the code under test (abort, memory error, stack overflow)
// or does not get on with a case, the watching process runs the candidates one by one, each in
// its own process, and shrinks the one that reproduces it.

const REGRESSION: u64 = u64::MAX - 1;
const KNOWN: u64 = u64::MAX - 2;
const SLOT: u64 = 32;
const SLOTS: usize = 256;
/// A case that needs more processor time than this does not end
const CASE_LIMIT: u64 = 60;
/// One that waits longer than this does not end either; much more, as other programs may use the machine
const WAIT_LIMIT: u64 = 180;
/// Look for the case that does not end after this time
const SEARCH_AFTER: u64 = 120;

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_millis() as u64)
        .unwrap_or(0)
}

struct Progress(Option<std::fs::File>);

/// Position of one thread
pub struct Slot<'a> {
    file: Option<&'a std::fs::File>,
    pos: u64,
    task: std::cell::Cell<(u64, u64)>,
}

impl Progress {
    fn slot(&self, i: usize) -> Slot<'_> {
        Slot { file: self.0.as_ref().filter(|_| i < SLOTS), pos: i as u64 * SLOT, task: Default::default() }
    }
    fn read(file: &std::fs::File) -> Vec<[u64; 4]> {
        use std::os::unix::fs::FileExt;
        let mut buf = vec![0u8; SLOTS * SLOT as usize];
        let mut n = 0;
        while let Ok(k) = file.read_at(&mut buf[n..], n as u64) {
            if k == 0 {
                break;
            }
            n += k;
        }
        buf[..n]
            .chunks_exact(SLOT as usize)
            .map(|c| {
                let mut v = [0u64; 4];
                for (v, b) in v.iter_mut().zip(c.chunks(8)) {
                    *v = u64::from_le_bytes(b.try_into().unwrap());
                }
                v
            })
            .collect()
    }
}

impl Slot<'_> {
    fn task(&self, sub: u64, shard: u64) {
        self.task.set((sub, shard));
    }
    fn write(&self, v: [u64; 4]) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = self.file {
            let mut b = [0u8; SLOT as usize];
            for (b, v) in b.chunks_mut(8).zip(v) {
                b.copy_from_slice(&v.to_le_bytes());
            }
            let _ = f.write_all_at(&b, self.pos);
        }
    }
    fn at(&self, index: u64) {
        let (sub, shard) = self.task.get();
        self.write([now(), sub, shard, index]);
    }
    fn done(&self) {
        self.write([0; 4]);
    }
}

fn sorted_files(dir: &str) -> Vec<std::path::PathBuf> {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_else(|_| vec![]);
    files.sort();
    files
}

struct Ended {
    code: Option<i32>,
    signal: Option<i32>,
    stuck: bool,
    out: String,
}

impl Ended {
    fn abnormal(&self) -> Option<Fail> {
        if self.stuck {
            Some(err("hang", "does not end within the time limit"))
        } else if let Some(s) = self.signal {
            Some(err("killed", format!("the process was ended by signal {s}")))
        } else {
            match self.code {
                Some(0) | Some(1) | Some(4) => None,
                c => Some(err("killed", format!("the process ended with code {c:?}"))),
            }
        }
    }
}

/// Processor time that a process has used
fn processor_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks: f64 = [11, 12].iter().filter_map(|&i| fields.get(i)?.parse::<f64>().ok()).sum();
    ticks / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

/// Run this program again and wait for its end
fn child(args: &[String], capture: bool, limit: std::time::Duration, progress: Option<(&str, &std::fs::File)>) -> Ended {
    use std::io::Read;
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    cmd.args(args).env("VERIF_CHILD", "1").process_group(0).stdin(std::process::Stdio::null());
    if let Some((path, _)) = progress {
        cmd.env("VERIF_PROGRESS", path);
    }
    if capture {
        cmd.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    }
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            Ok(())
        });
    }
    let mut p = cmd.spawn().expect("start of the check process");
    let reader = p.stdout.take().map(|mut o| {
        std::thread::spawn(move || {
            let mut s = vec![];
            let _ = o.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        })
    });
    let start = std::time::Instant::now();
    let mut stuck = false;
    let status = loop {
        match p.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if let (Some((_, f)), false) = (progress, stuck) {
            let t = now();
            stuck = Progress::read(f).iter().any(|s| s[0] != 0 && t.saturating_sub(s[0]) > SEARCH_AFTER * 1000);
        }
        let busy = capture && processor_seconds(p.id()) > CASE_LIMIT as f64;
        if stuck || busy || start.elapsed() > limit {
            stuck = true;
            unsafe { libc::kill(-(p.id() as i32), libc::SIGKILL) };
            break p.wait().ok();
        }
        let ms = if start.elapsed().as_millis() < 2000 { 3 } else { 100 };
        std::thread::sleep(std::time::Duration::from_millis(ms));
    };
    // whatever it left running
    unsafe { libc::kill(-(p.id() as i32), libc::SIGKILL) };
    Ended {
        code: status.and_then(|s| s.code()),
        signal: status.and_then(|s| s.signal()),
        stuck,
        out: reader.and_then(|r| r.join().ok()).unwrap_or_default(),
    }
}

/// Outcome of a replay file in a process of its own
fn replay_in_child(id: &str, path: &str) -> Res {
    let e = child(
        &[id.to_string(), "--replay".into(), path.to_string()],
        true,
        std::time::Duration::from_secs(WAIT_LIMIT),
        None,
    );
    if let Some(f) = e.abnormal() {
        return Err(f);
    }
    match e.code {
        Some(0) => Ok(()),
        _ => {
            let line = e.out.lines().find(|l| l.starts_with("replay fails [")).unwrap_or("replay fails []: ");
            let (sig, msg) = line["replay fails [".len()..].split_once("]: ").unwrap_or(("", line));
            Err(err(sig, msg))
        }
    }
}

fn watch(prop: Property, tier: Tier, seed: u64, root: &str, args: &[String]) -> i32 {
    let scratch = std::env::temp_dir().join(format!("d10-verif-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let path = scratch.join("progress").to_string_lossy().into_owned();
    let file = match std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot create {path}: {e}");
            return 4;
        }
    };
    let code = watch_in(prop, tier, seed, root, args, &scratch.to_string_lossy(), &path, &file);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

#[allow(clippy::too_many_arguments)]
fn watch_in(prop: Property, tier: Tier, seed: u64, root: &str, args: &[String], scratch: &str, path: &str, file: &std::fs::File) -> i32 {
    let start = std::time::Instant::now();
    let (limit, last) = if tier == Tier::Quick { (500, 780) } else { (7200, 14400) };
    let code = attempt(&prop, tier, seed, root, args, scratch, path, file, limit, start);
    // Nothing explains the end: another process took the machine or ended this one
    if code == 3 && start.elapsed().as_secs() < last / 2 {
        println!("{}: once more", prop.id);
        let _ = file.set_len(0);
        return attempt(&prop, tier, seed, root, args, scratch, path, file, last - start.elapsed().as_secs(), start);
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn attempt(
    prop: &Property,
    tier: Tier,
    seed: u64,
    root: &str,
    args: &[String],
    scratch: &str,
    path: &str,
    file: &std::fs::File,
    limit: u64,
    start: std::time::Instant,
) -> i32 {
    let limit = std::time::Duration::from_secs(limit);
    let e = child(&args[1..], false, limit, Some((path, file)));
    let Some(how) = e.abnormal() else {
        return e.code.unwrap_or(3);
    };
    println!("{}: {}; looking for the case", prop.id, how.msg);
    let known = load_known(&format!("{root}/known-findings.jsonl"), prop.id);
    let regressions = sorted_files(&format!("{root}/regressions/{}", prop.id));
    let mut slots: Vec<_> = Progress::read(file).into_iter().filter(|s| s[0] != 0).collect();
    // the case that takes longest first
    slots.sort();
    let listed = |sub: &str, f: &Fail| known.iter().any(|k| k.sub == sub && k.sig == f.sig);
    let mut found: Option<(String, Value, Fail)> = None;
    for [_, sub, shard, index] in slots {
        let tmp = format!("{scratch}/case.json");
        if sub == REGRESSION || sub == KNOWN {
            let doc = if sub == KNOWN {
                known.get(index as usize).map(|k| json!({"sub": k.sub, "value": k.value}))
            } else {
                regressions
                    .get(index as usize)
                    .and_then(|p| std::fs::read_to_string(p).ok())
                    .and_then(|t| serde_json::from_str(&t).ok())
            };
            let Some(doc) = doc else { continue };
            let _ = std::fs::write(&tmp, doc.to_string());
            if let Err(f) = replay_in_child(prop.id, &tmp) {
                let name = doc["sub"].as_str().unwrap_or("").to_string();
                if !listed(&name, &f) {
                    found = Some((name, doc["value"].clone(), f));
                    break;
                }
            }
            continue;
        }
        let Some(s) = prop.subs.get(sub as usize) else { continue };
        let first = std::cell::Cell::new(true);
        let shrink_until = std::time::Instant::now() + std::time::Duration::from_secs(100);
        let eval = |name: &str, v: Value| -> Res {
            // the case itself is always decided, smaller ones as long as there is time
            if !first.get() && std::time::Instant::now() > shrink_until {
                return Ok(());
            }
            first.set(false);
            let _ = std::fs::write(&tmp, json!({"sub": name, "value": v}).to_string());
            replay_in_child(prop.id, &tmp)
        };
        let ks: HashSet<String> = known.iter().filter(|k| k.sub == s.name()).map(|k| k.sig.clone()).collect();
        let out = s.run(seed, shard as u32, index as u32 + 1, &ks, &Mode::One { index, eval: Some(&eval) });
        if let Some((v, f)) = out.failure {
            found = Some((s.name(), v, f));
            break;
        }
    }
    let Some((name, value, f)) = found else {
        println!("no case reproduces it: no answer");
        return 3;
    };
    let evidence = json!({
        "property": prop.id,
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": 1,
            "distinct_nontrivial": 1,
            "rule": prop.rule,
            "samples": [{"check": name, "case": if value.to_string().len() < 100_000 { value.clone() } else { json!("too large, see the replay file") }}],
            "note": "the search ended early because the code under test ended the process or did not return",
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": 1,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let _ = std::fs::write(
        evidence_path(root, prop.id),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    );
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let replay = replay_path(root, prop.id, &name, 0);
    let doc = json!({"property": prop.id, "sub": name, "sig": f.sig, "message": f.msg, "value": value});
    let _ = std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap() + "\n");
    println!("  failed {name} [{}]: {}", f.sig, short(&f.msg, 1200));
    println!("VIOLATION property={} replay={}", prop.id, replay);
    1
}

/// Entry point of every check program
pub fn main_with(get: fn(&str, Tier) -> Option<Property>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok().map(|v| v as u64))
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some(id) = args.get(1) else {
        eprintln!("usage: check <PROPERTY> [--only SUB] [--replay FILE]");
        std::process::exit(4);
    };
    // can the program be run at all
    if id == "--start" {
        std::process::exit(0);
    }
    let Some(prop) = get(id, tier) else {
        eprintln!("unknown property {id}");
        std::process::exit(4);
    };
    let mut only = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--only" => {
                only = args.get(i + 1).cloned();
                i += 2;
            }
            "--replay" => {
                let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
                let name = v["sub"].as_str().unwrap_or("");
                if std::env::var_os("VERIF_CHILD").is_none() {
                    match replay_in_child(id, &args[i + 1]) {
                        Ok(()) => {
                            println!("replay passes");
                            std::process::exit(0);
                        }
                        Err(e) => {
                            println!("replay fails [{}]: {}", e.sig, e.msg);
                            println!("VIOLATION property={} replay={}", id, args[i + 1]);
                            std::process::exit(1);
                        }
                    }
                }
                let s = prop.subs.iter().find(|s| s.name() == name).expect("sub check");
                match s.replay(&v["value"]) {
                    Ok(()) => {
                        println!("replay passes");
                        std::process::exit(0);
                    }
                    Err(e) => {
                        println!("replay fails [{}]: {}", e.sig, e.msg);
                        println!("VIOLATION property={} replay={}", id, args[i + 1]);
                        std::process::exit(1);
                    }
                }
            }
            _ => {
                eprintln!("unknown argument {}", args[i]);
                std::process::exit(4);
            }
        }
    }
    let code = if std::env::var_os("VERIF_CHILD").is_some() {
        let progress = Progress(
            std::env::var_os("VERIF_PROGRESS").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()),
        );
        run_property(prop, tier, seed, &root, only.as_deref(), &progress)
    } else {
        watch(prop, tier, seed, &root, &args)
    };
    std::process::exit(code);
}
