//! Case generation, execution, shrinking and replay.
//!
//! Case `i` of leg `l` of property `p` is generated from an RNG seeded with (seed, p, l, i) only.

use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => {
        if !$c {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}

/// What a case's execution tells about itself, for the evidence.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Cx {
    /// Count this case once under `l`.
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l, 1);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var_os("GV_VERBOSE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let msg = panic_text(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if verbose {
            eprintln!("panic: {msg} at {loc}");
        }
        if msg.contains("unsafe precondition") {
            // The standard library's own check, the process ends here.
            eprintln!("Undefined Behavior: {msg} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic payload".into()
    }
}

/// Runs `f`, giving its panic's text if it panics.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        LAST_PANIC
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| panic_text(&*p))
    })
}

fn fnv(parts: &[&[u8]], basis: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ basis.wrapping_mul(0x9e3779b97f4a7c15);
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

#[derive(Clone, Debug)]
pub struct CaseId {
    pub seed: u64,
    pub prop: String,
    pub leg: String,
    pub idx: u64,
}

impl CaseId {
    fn runner(&self) -> TestRunner {
        let mut bytes = [0u8; 32];
        for (i, c) in bytes.chunks_mut(8).enumerate() {
            let h = fnv(
                &[
                    &self.seed.to_le_bytes(),
                    self.prop.as_bytes(),
                    self.leg.as_bytes(),
                    &self.idx.to_le_bytes(),
                ],
                i as u64 + 1,
            );
            c.copy_from_slice(&h.to_le_bytes());
        }
        TestRunner::new_with_rng(
            Config {
                failure_persistence: None,
                ..Config::default()
            },
            TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
        )
    }
}

pub struct Failure {
    pub message: String,
    pub case_json: String,
    pub shrink_steps: u64,
}

pub struct CaseOutcome {
    pub cx: Cx,
    pub hash: u64,
    pub failure: Option<Failure>,
}

pub trait LegWorker {
    fn run(&mut self, id: &CaseId) -> CaseOutcome;
    fn case_json(&mut self, id: &CaseId) -> String;
}

trait LegImpl: Send + Sync {
    fn worker(&self) -> Box<dyn LegWorker>;
    fn replay(&self, json: &str) -> Result<(Cx, R), String>;
    fn shrink_isolated(
        &self,
        id: &CaseId,
        dies: &mut dyn FnMut(&str) -> bool,
        budget: Duration,
    ) -> (String, u64);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Native,
    Asan,
    Msan,
    Tsan,
    Miri,
}

impl Mode {
    /// Builds that report undefined behaviour on their own.
    pub const SANITIZERS: [Mode; 3] = [Mode::Asan, Mode::Msan, Mode::Tsan];

    pub fn name(self) -> &'static str {
        match self {
            Mode::Native => "native",
            Mode::Asan => "asan",
            Mode::Msan => "msan",
            Mode::Tsan => "tsan",
            Mode::Miri => "miri",
        }
    }
}

pub struct Leg {
    pub name: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Largest number of worker threads (cases that use threads of their own set this low).
    pub max_workers: usize,
    /// A case still running after this long does not finish.
    pub hang_s: u64,
    /// Numbers of cases for builds with sanitizers, and under Miri.
    pub other: Vec<(Mode, (u64, u64))>,
    inner: Box<dyn LegImpl>,
}

struct Typed<C, F> {
    strategy: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    check: F,
}

struct TypedWorker<C: Debug, F> {
    strategy: BoxedStrategy<C>,
    check: F,
}

fn run_check<C, F>(check: &F, case: &C) -> (Cx, R)
where
    F: Fn(&C, &mut Cx) -> R,
{
    let mut cx = Cx::default();
    let r = match catching(|| check(case, &mut cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    (cx, r)
}

/// Judges only what the sanitizers and the counted values say: a check of another property says nothing
/// about undefined behaviour.
pub fn lax<C>(check: impl Fn(&C, &mut Cx) -> R + Clone) -> impl Fn(&C, &mut Cx) -> R + Clone {
    move |c, cx| {
        crate::props::tok::reset();
        let _ = catching(|| check(c, cx));
        crate::props::tok::first_error().map_or(Ok(()), Err)
    }
}

fn hash_of<C: Hash>(c: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

const SHRINK_TIME: Duration = Duration::from_secs(20);
const SHRINK_STEPS: u64 = 20_000;

/// Minimises by walking proptest's value tree as its own runner does.
fn shrink<T: ValueTree>(
    tree: &mut T,
    mut fails: impl FnMut(&T::Value) -> bool,
    budget: Duration,
    max_steps: u64,
) -> u64 {
    let start = Instant::now();
    let mut steps = 0;
    if !tree.simplify() {
        return 0;
    }
    loop {
        steps += 1;
        let over = steps > max_steps || start.elapsed() > budget;
        if !over && fails(&tree.current()) {
            if !tree.simplify() {
                break;
            }
        } else {
            let more = tree.complicate();
            if over {
                // Step back to a value known to fail.
                let mut ok = more;
                let mut n = 0;
                while ok && !fails(&tree.current()) && n < 200 {
                    ok = tree.complicate();
                    n += 1;
                }
                break;
            }
            if !more {
                break;
            }
        }
    }
    steps
}

impl<C, F> LegWorker for TypedWorker<C, F>
where
    C: Debug + Clone + Hash + Serialize,
    F: Fn(&C, &mut Cx) -> R,
{
    fn run(&mut self, id: &CaseId) -> CaseOutcome {
        let mut runner = id.runner();
        let mut tree = self.strategy.new_tree(&mut runner).expect("generator");
        let case = tree.current();
        let hash = hash_of(&case);
        let (cx, r) = run_check(&self.check, &case);
        let failure = r.err().map(|first| {
            let mut best = (first, case.clone());
            let check = &self.check;
            let steps = shrink(
                &mut tree,
                |c| match run_check(check, c).1 {
                    Ok(()) => false,
                    Err(e) => {
                        best = (e, c.clone());
                        true
                    }
                },
                SHRINK_TIME,
                SHRINK_STEPS,
            );
            Failure {
                message: best.0,
                case_json: serde_json::to_string(&best.1).unwrap(),
                shrink_steps: steps,
            }
        });
        CaseOutcome { cx, hash, failure }
    }

    fn case_json(&mut self, id: &CaseId) -> String {
        let mut runner = id.runner();
        let tree = self.strategy.new_tree(&mut runner).expect("generator");
        serde_json::to_string(&tree.current()).unwrap()
    }
}

impl<C, F> LegImpl for Typed<C, F>
where
    C: Debug + Clone + Hash + Serialize + DeserializeOwned + 'static,
    F: Fn(&C, &mut Cx) -> R + Clone + Send + Sync + 'static,
{
    fn worker(&self) -> Box<dyn LegWorker> {
        Box::new(TypedWorker {
            strategy: (self.strategy)(),
            check: self.check.clone(),
        })
    }

    fn replay(&self, json: &str) -> Result<(Cx, R), String> {
        let case: C = serde_json::from_str(json).map_err(|e| e.to_string())?;
        Ok(run_check(&self.check, &case))
    }

    fn shrink_isolated(
        &self,
        id: &CaseId,
        dies: &mut dyn FnMut(&str) -> bool,
        budget: Duration,
    ) -> (String, u64) {
        let strategy = (self.strategy)();
        let mut runner = id.runner();
        let mut tree = strategy.new_tree(&mut runner).expect("generator");
        let mut best = serde_json::to_string(&tree.current()).unwrap();
        let steps = shrink(
            &mut tree,
            |c| {
                let json = serde_json::to_string(c).unwrap();
                let d = dies(&json);
                if d {
                    best = json;
                }
                d
            },
            budget,
            3000,
        );
        (best, steps)
    }
}

impl Leg {
    pub fn new<C, S, F>(
        name: &'static str,
        rule: &'static str,
        (quick, thorough): (u64, u64),
        strategy: impl Fn() -> S + Send + Sync + 'static,
        check: F,
    ) -> Leg
    where
        C: Debug + Clone + Hash + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = C> + 'static,
        F: Fn(&C, &mut Cx) -> R + Clone + Send + Sync + 'static,
    {
        Leg {
            name,
            rule,
            quick,
            thorough,
            max_workers: usize::MAX,
            hang_s: 60,
            other: vec![],
            inner: Box::new(Typed {
                strategy: Box::new(move || strategy().boxed()),
                check,
            }),
        }
    }

    pub fn workers(mut self, n: usize) -> Leg {
        self.max_workers = n;
        self
    }

    pub fn hang(mut self, s: u64) -> Leg {
        self.hang_s = s;
        self
    }

    pub fn also(mut self, mode: Mode, quick: u64, thorough: u64) -> Leg {
        self.other.push((mode, (quick, thorough)));
        self
    }

    pub fn count(&self, mode: Mode, thorough: bool) -> u64 {
        let (q, t) = match mode {
            Mode::Native => (self.quick, self.thorough),
            _ => self.other.iter().find(|(m, _)| *m == mode).map_or((0, 0), |(_, n)| *n),
        };
        let n = if thorough { t } else { q };
        let scale: f64 = std::env::var("GV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        if n == 0 || scale == 1.0 {
            n
        } else {
            ((n as f64 * scale) as u64).max(1)
        }
    }

    pub fn worker(&self) -> Box<dyn LegWorker> {
        self.inner.worker()
    }

    pub fn replay(&self, json: &str) -> Result<(Cx, R), String> {
        self.inner.replay(json)
    }

    pub fn shrink_isolated(
        &self,
        id: &CaseId,
        dies: &mut dyn FnMut(&str) -> bool,
        budget: Duration,
    ) -> (String, u64) {
        self.inner.shrink_isolated(id, dies, budget)
    }
}

/// A recorded defect: a fixed input that fails on the tree as it stands.
pub struct Probe {
    pub name: &'static str,
    /// Gives what fails, or `None` if the behaviour is right.
    pub run: fn() -> Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub legs: Vec<Leg>,
    pub probes: Vec<Probe>,
    pub assumptions: Vec<&'static str>,
}

impl Prop {
    pub fn new(id: &'static str, legs: Vec<Leg>) -> Prop {
        Prop {
            id,
            legs,
            probes: vec![],
            assumptions: vec![],
        }
    }
    pub fn probe(mut self, name: &'static str, run: fn() -> Option<String>) -> Prop {
        self.probes.push(Probe { name, run });
        self
    }
    pub fn assume(mut self, s: &'static str) -> Prop {
        self.assumptions.push(s);
        self
    }
    pub fn leg(&self, name: &str) -> Option<&Leg> {
        self.legs.iter().find(|l| l.name == name)
    }
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct LegReport {
    pub leg: String,
    #[serde(default)]
    pub mode: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub wall_s: f64,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub leg: String,
    /// How it was run: native, asan or miri.
    #[serde(default)]
    pub mode: String,
    pub seed: u64,
    pub idx: u64,
    pub message: String,
    pub shrink_steps: u64,
    pub case: serde_json::Value,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub legs: Vec<LegReport>,
    pub failure: Option<Replay>,
}

/// Where worker threads note the case they are executing, for the supervisor to find after a crash.
pub struct Journal(std::fs::File);

impl Journal {
    pub fn create(path: &str) -> Journal {
        Journal(std::fs::File::create(path).expect("journal"))
    }
    fn put(&self, slot: usize, leg: u64, idx: u64, running: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&leg.to_le_bytes());
        b[8..16].copy_from_slice(&idx.to_le_bytes());
        b[16..].copy_from_slice(&running.to_le_bytes());
        let _ = self.0.write_all_at(&b, slot as u64 * 24);
    }
    pub fn read(path: &str) -> Vec<(u64, u64)> {
        let data = std::fs::read(path).unwrap_or_default();
        data.chunks_exact(24)
            .filter_map(|c| {
                let g = |i: usize| u64::from_le_bytes(c[i..i + 8].try_into().unwrap());
                (g(16) == 1).then(|| (g(0), g(8)))
            })
            .collect()
    }
}

fn clip(json: String) -> serde_json::Value {
    if json.len() <= 1500 {
        serde_json::from_str(&json).unwrap()
    } else {
        let mut end = 1500;
        while !json.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &json[..end], json.len()))
    }
}

/// Runs all legs in this process, `workers` threads at a time.
pub fn run_prop(
    prop: &Prop,
    mode: Mode,
    thorough: bool,
    seed: u64,
    workers: usize,
    journal: &Journal,
) -> WorkerReport {
    use std::sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    };

    let mut report = WorkerReport::default();
    let only = std::env::var("GV_LEG").ok();

    for (leg_no, leg) in prop.legs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != leg.name) {
            continue;
        }
        let start = Instant::now();
        let total = leg.count(mode, thorough);
        if total == 0 {
            continue;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Shared {
            rep: LegReport,
            seen: HashSet<u64>,
            samples: BTreeMap<u64, String>,
            failure: Option<(u64, Failure)>,
        }
        let shared = Mutex::new(Shared {
            rep: LegReport {
                leg: leg.name.into(),
                mode: mode.name().into(),
                rule: leg.rule.into(),
                ..Default::default()
            },
            seen: HashSet::new(),
            samples: BTreeMap::new(),
            failure: None,
        });

        std::thread::scope(|scope| {
            for slot in 0..workers.min(leg.max_workers) {
                let (next, stop, shared) = (&next, &stop, &shared);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut w = leg.worker();
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let (mut evals, mut nontrivial) = (0u64, 0u64);
                        let mut hashes = HashSet::new();
                        let mut fail = None;
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= total {
                                break;
                            }
                            let id = CaseId {
                                seed,
                                prop: prop.id.into(),
                                leg: leg.name.into(),
                                idx,
                            };
                            journal.put(slot, leg_no as u64, idx, 1);
                            let out = w.run(&id);
                            journal.put(slot, leg_no as u64, idx, 0);
                            evals += 1;
                            for (k, v) in out.cx.labels {
                                *labels.entry(k).or_insert(0) += v;
                            }
                            if out.cx.nontrivial {
                                nontrivial += 1;
                                if hashes.insert(out.hash) && idx < 40 {
                                    let json = w.case_json(&id);
                                    let mut s = shared.lock().unwrap();
                                    s.samples.insert(idx, json);
                                }
                            }
                            if let Some(f) = out.failure {
                                stop.store(true, Ordering::Relaxed);
                                fail = Some((idx, f));
                                break;
                            }
                        }
                        let mut s = shared.lock().unwrap();
                        s.rep.evaluations += evals;
                        s.rep.nontrivial += nontrivial;
                        s.seen.extend(hashes);
                        for (k, v) in labels {
                            *s.rep.labels.entry(k.into()).or_insert(0) += v;
                        }
                        if let Some((i, f)) = fail {
                            if s.failure.as_ref().map_or(true, |(j, _)| i < *j) {
                                s.failure = Some((i, f));
                            }
                        }
                    })
                    .unwrap();
            }
        });

        let mut s = shared.into_inner().unwrap();
        s.rep.distinct_nontrivial = s.seen.len() as u64;
        s.rep.wall_s = (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0;
        // The shortest few of the first cases, so that the evidence stays readable.
        let mut samples: Vec<String> = s.samples.into_values().collect();
        samples.sort_by_key(|j| j.len());
        let n = samples.len();
        s.rep.samples = [n / 4, n / 2]
            .iter()
            .filter_map(|i| samples.get(*i).cloned())
            .map(clip)
            .collect();
        report.legs.push(s.rep);
        if let Some((idx, f)) = s.failure {
            report.failure = Some(Replay {
                property: prop.id.into(),
                leg: leg.name.into(),
                mode: mode.name().into(),
                seed,
                idx,
                message: f.message,
                shrink_steps: f.shrink_steps,
                case: serde_json::from_str(&f.case_json).unwrap(),
            });
            break;
        }
    }
    report
}
