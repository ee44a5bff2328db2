//! Runs generated cases against the oracles: deterministic sweeps and
//! proptest-driven random generation, in parallel, with shrinking, crash and
//! runaway guards, replay files and evidence.
use crate::cases::{self, Case};
use crate::counting::Counting;
pub use crate::counting::{allocations, kept};
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ------------------------------------------------------------ configuration

#[derive(Clone)]
pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    /// Every how manieth case is evaluated.
    pub part: u64,
}

/// Built as for use, without overflow checks and debug assertions.
pub const RELEASE: bool = !cfg!(debug_assertions);

/// What one evaluated case amounted to.
#[derive(Clone, Copy, Debug)]
pub struct Obs {
    pub nontrivial: bool,
    pub label: &'static str,
}
pub fn obs(nontrivial: bool, label: &'static str) -> Obs {
    Obs { nontrivial, label }
}

pub type Res = Result<Obs, String>;

// ------------------------------------------------------------------- guards

/// Net bytes one case may allocate, and CPU time it may take. Every case the
/// generators make needs less than 1 % of either on a correct tree.
const CASE_BYTES: isize = 256 << 20;
pub const CASE_CPU_SECS: u64 = 40;

fn case_cpu() -> u64 {
    static LIMIT: OnceLock<u64> = OnceLock::new();
    *LIMIT.get_or_init(|| {
        std::env::var("NOMCHECK_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(CASE_CPU_SECS)
    })
}

pub struct Guarded;

thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static EVALUATING: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as isize);
        Counting.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as isize));
        Counting.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as isize - l.size() as isize);
        Counting.realloc(p, l, n)
    }
}

fn charge(n: isize) {
    let _ = ARMED.try_with(|armed| {
        if armed.get() {
            NET.with(|net| {
                net.set(net.get() + n);
                if net.get() > CASE_BYTES {
                    armed.set(false);
                    fatal(SLOT.with(Cell::get), "runaway: the case allocated more than 256 MiB");
                }
            });
        }
    });
}

const SLOTS: usize = 64;
struct Slot {
    case: AtomicPtr<Case>,
    epoch: AtomicU64,
    thread: AtomicU64,
}
static TABLE: [Slot; SLOTS] = [const {
    Slot {
        case: AtomicPtr::new(std::ptr::null_mut()),
        epoch: AtomicU64::new(0),
        thread: AtomicU64::new(0),
    }
}; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static RUN: OnceLock<Run> = OnceLock::new();
static START: OnceLock<Instant> = OnceLock::new();
static FATAL: AtomicBool = AtomicBool::new(false);

/// A case that cannot be survived in-process (crash, hang, memory): write it
/// down and leave. The parent process shrinks it in children.
fn fatal(slot: usize, why: &str) -> ! {
    if FATAL.swap(true, SeqCst) {
        loop {
            std::thread::park();
        }
    }
    ARMED.with(|a| a.set(false));
    // A thread the case itself started has no slot: any running case will do.
    let case = match TABLE.get(slot) {
        Some(s) => s.case.load(SeqCst),
        None => TABLE
            .iter()
            .map(|s| s.case.load(SeqCst))
            .find(|c| !c.is_null())
            .unwrap_or(std::ptr::null_mut()),
    };
    if let (Some(run), false) = (RUN.get(), case.is_null()) {
        // SAFETY: the slot points at a case kept alive by the running check.
        let case = unsafe { &*case };
        if run.root.as_os_str().is_empty() {
            println!("FATAL - {why}");
        } else {
            let path = save_replay(run, case, why);
            println!("FATAL {} {}", path.display(), why);
        }
        let _ = std::io::Write::flush(&mut std::io::stdout());
    }
    unsafe { libc::_exit(3) }
}

extern "C" fn on_signal(sig: libc::c_int) {
    // If writing the case down gets stuck, die.
    unsafe { libc::alarm(20) };
    let slot = SLOT.try_with(Cell::get).unwrap_or(usize::MAX);
    let why = match sig {
        libc::SIGSEGV => "crash: SIGSEGV (stack overflow or invalid access)",
        libc::SIGABRT => "crash: abort",
        libc::SIGFPE => "crash: SIGFPE",
        libc::SIGILL => "crash: SIGILL",
        _ => "crash: fatal signal",
    };
    fatal(slot, why)
}

/// Called once per worker thread.
pub fn enter_worker() {
    if SLOT.with(Cell::get) != usize::MAX {
        return;
    }
    let id = NEXT_SLOT.fetch_add(1, SeqCst);
    if id >= SLOTS {
        return;
    }
    SLOT.with(|s| s.set(id));
    unsafe {
        TABLE[id].thread.store(libc::pthread_self() as u64, SeqCst);
        let size = 1 << 20;
        let stack = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGFPE, libc::SIGILL] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

fn leave_worker() {
    let id = SLOT.with(|s| s.replace(usize::MAX));
    if id < SLOTS {
        TABLE[id].thread.store(0, SeqCst);
    }
}

fn start_watchdog() {
    std::thread::spawn(|| {
        let mut seen = [(u64::MAX, 0u64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, s) in TABLE.iter().enumerate() {
                let t = s.thread.load(SeqCst);
                if t == 0 || s.case.load(SeqCst).is_null() {
                    continue;
                }
                let epoch = s.epoch.load(SeqCst);
                let mut clock: libc::clockid_t = 0;
                let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                let ok = unsafe {
                    libc::pthread_getcpuclockid(t as libc::pthread_t, &mut clock) == 0
                        && libc::clock_gettime(clock, &mut ts) == 0
                };
                if !ok {
                    continue;
                }
                let cpu = ts.tv_sec as u64;
                if seen[i].0 != epoch {
                    seen[i] = (epoch, cpu);
                } else if cpu.saturating_sub(seen[i].1) >= case_cpu() {
                    fatal(i, "hang: the case used too much CPU time (limit 40 s)");
                }
            }
        }
    });
}

/// Evaluates one case, turning panics into failures.
pub fn eval(prop: &str, case: &Case) -> Res {
    let slot = SLOT.with(Cell::get);
    let parent = (slot < SLOTS).then(|| {
        let s = &TABLE[slot];
        s.epoch.fetch_add(1, Relaxed);
        s.case.swap(std::ptr::from_ref(case).cast_mut(), Release)
    });
    NET.with(|n| n.set(0));
    EVALUATING.with(|e| e.set(true));
    ARMED.with(|a| a.set(true));
    let r = std::panic::catch_unwind(|| cases::check(prop, case));
    ARMED.with(|a| a.set(false));
    EVALUATING.with(|e| e.set(false));
    if let Some(p) = parent {
        TABLE[slot].case.store(p, Release);
        TABLE[slot].epoch.fetch_add(1, Relaxed);
    }
    r.unwrap_or_else(|_| Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))))
}

pub fn init(run: &Run) {
    if RUN.set(run.clone()).is_err() {
        return;
    }
    let _ = START.set(Instant::now());
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        if !EVALUATING.try_with(Cell::get).unwrap_or(false) {
            eprintln!("{s}");
        }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    start_watchdog();
}

// ----------------------------------------------------------------- counters

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, Case)>,
}
const DISTINCT_CAP: usize = 1 << 20;

fn hash_of(case: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    case.hash(&mut h);
    h.finish()
}

impl Stats {
    pub fn count(&mut self, case: &Case, o: Obs) {
        self.evaluations += 1;
        *self.labels.entry(o.label).or_default() += 1;
        if !o.nontrivial {
            return;
        }
        self.nontrivial += 1;
        if self.distinct.len() < DISTINCT_CAP {
            let h = hash_of(case);
            if self.distinct.insert(h) && (self.samples.len() < 4 || h < self.samples[3].0) {
                self.samples.push((h, case.clone()));
                self.samples.sort_by_key(|s| s.0);
                self.samples.truncate(4);
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.samples.sort_by_key(|s| s.0);
        self.samples.dedup_by_key(|s| s.0);
        self.samples.truncate(8);
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: Case,
    pub why: String,
}

// ------------------------------------------------------------------- phases

pub type Job = Box<dyn Fn(&mut Sink) + Send + Sync>;

/// Receives the cases of one sweep job.
pub struct Sink<'a> {
    prop: &'a str,
    stats: Stats,
    failure: Option<Failure>,
    stop: &'a AtomicBool,
    part: u64,
    next: u64,
}
impl Sink<'_> {
    /// Evaluates a case; false means the job should stop.
    pub fn case(&mut self, case: Case) -> bool {
        if self.failure.is_some() || self.stop.load(Relaxed) {
            return false;
        }
        // C16 formats in every type that holds the nominal, so one is enough.
        if self.prop == "C16" && !case.in_smallest_type() {
            return true;
        }
        self.next += 1;
        if self.next % self.part != 0 {
            return true;
        }
        match eval(self.prop, &case) {
            Ok(o) => {
                self.stats.count(&case, o);
                true
            }
            Err(why) => {
                self.failure = Some(Failure { case, why });
                false
            }
        }
    }
}

fn in_parallel<T: Send>(count: usize, work: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    enter_worker();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= count {
                            break;
                        }
                        let r = work(i);
                        out.lock().unwrap().push((i, r));
                    }
                    leave_worker();
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    NEXT_SLOT.store(0, SeqCst);
    v.into_iter().map(|x| x.1).collect()
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16)
}

pub struct Outcome {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub phases: Vec<(String, u64)>,
}

pub fn sweep(run: &Run, name: &str, jobs: Vec<Job>, out: &mut Outcome) {
    if out.failure.is_some() || jobs.is_empty() {
        return;
    }
    let stop = AtomicBool::new(false);
    let results = in_parallel(jobs.len(), |i| {
        let (part, next) = (run.part, i as u64);
        let mut sink =
            Sink { prop: &run.prop, stats: Stats::default(), failure: None, stop: &stop, part, next };
        jobs[i](&mut sink);
        if sink.failure.is_some() {
            stop.store(true, SeqCst);
        }
        (sink.stats, sink.failure)
    });
    let mut n = 0;
    for (stats, failure) in results {
        n += stats.evaluations;
        out.stats.merge(stats);
        if out.failure.is_none() {
            out.failure = failure;
        }
    }
    out.phases.push((name.to_string(), n));
}

pub const SHARDS: usize = 32;

fn rng_for(run: &Run, phase: &str, shard: usize) -> TestRng {
    let mut seed = [0u8; 32];
    for (i, chunk) in seed.chunks_mut(8).enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (run.seed, &run.prop, phase, shard, i).hash(&mut h);
        if RELEASE {
            "release".hash(&mut h);
        }
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

pub fn runner_for(run: &Run, phase: &str, shard: usize, cases: u32) -> TestRunner {
    TestRunner::new_with_rng(
        Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 0,
            ..Config::default()
        },
        rng_for(run, phase, shard),
    )
}

/// Random generation: `total` cases over a fixed number of shards.
pub fn random(
    run: &Run,
    name: &str,
    total: u64,
    strategy: &(dyn Fn() -> BoxedStrategy<Case> + Sync),
    out: &mut Outcome,
) {
    if out.failure.is_some() || total == 0 {
        return;
    }
    let per = u32::try_from(total.div_ceil(SHARDS as u64 * run.part)).unwrap();
    let stop = AtomicBool::new(false);
    let results = in_parallel(SHARDS, |shard| {
        let mut runner = runner_for(run, name, shard, per);
        let stats = RefCell::new(Stats::default());
        let failing = Cell::new(false);
        let r = runner.run(&strategy(), |case| {
            if !failing.get() && stop.load(Relaxed) {
                return Ok(());
            }
            match eval(&run.prop, &case) {
                Ok(o) => {
                    if !failing.get() {
                        stats.borrow_mut().count(&case, o);
                    }
                    Ok(())
                }
                Err(why) => {
                    failing.set(true);
                    stop.store(true, SeqCst);
                    Err(TestCaseError::fail(why))
                }
            }
        });
        let failure = match r {
            Ok(()) => None,
            Err(TestError::Fail(why, case)) => {
                Some(Failure { case, why: why.message().to_string() })
            }
            Err(TestError::Abort(why)) => {
                eprintln!("harness error: generation aborted: {why}");
                std::process::exit(2);
            }
        };
        (stats.into_inner(), failure)
    });
    let mut n = 0;
    for (stats, failure) in results {
        n += stats.evaluations;
        out.stats.merge(stats);
        if out.failure.is_none() {
            out.failure = failure;
        }
    }
    out.phases.push((name.to_string(), n));
}

/// Phases that keep their own state across cases (injectivity).
pub fn custom<T: Send>(
    run: &Run,
    name: &str,
    count: usize,
    work: impl Fn(usize, &mut Stats) -> Result<T, Failure> + Sync,
    out: &mut Outcome,
) {
    if out.failure.is_some() {
        return;
    }
    let _ = run;
    let results = in_parallel(count, |i| {
        let mut stats = Stats::default();
        let r = work(i, &mut stats);
        (stats, r.err())
    });
    let mut n = 0;
    for (stats, failure) in results {
        n += stats.evaluations;
        out.stats.merge(stats);
        if out.failure.is_none() {
            out.failure = failure;
        }
    }
    out.phases.push((name.to_string(), n));
}

/// Runs something on a thread with the guards of a worker.
pub fn on_worker<T: Send>(f: impl Fn() -> T + Sync) -> T {
    in_parallel(1, |_| f()).pop().unwrap()
}

/// Greedy minimisation over the case's own notion of smaller.
pub fn minimise(prop: &str, f: Failure) -> Failure {
    in_parallel(1, |_| {
        let mut best = f.clone();
        let mut budget = 20_000;
        'outer: loop {
            for cand in best.case.smaller() {
                if budget == 0 {
                    break 'outer;
                }
                budget -= 1;
                if let Err(why) = eval(prop, &cand) {
                    best = Failure { case: cand, why };
                    continue 'outer;
                }
            }
            break;
        }
        best
    })
    .pop()
    .unwrap()
}

// ------------------------------------------------------- replays, evidence

#[derive(serde::Serialize, serde::Deserialize)]
pub struct Replay {
    pub property: String,
    pub why: String,
    pub case: Case,
    /// The case belongs to the build without alloc (C23 runs both).
    #[serde(default)]
    pub noalloc: bool,
    /// It fails in the build without overflow checks and debug assertions.
    #[serde(default)]
    pub release: bool,
    /// C27: the target, and the property whose oracle fails there.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub foreign: Option<(String, String)>,
}

pub fn save_replay(run: &Run, case: &Case, why: &str) -> PathBuf {
    let dir = run.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", run.prop, hash_of(case)));
    let r = Replay { property: run.prop.clone(), why: why.to_string(), case: case.clone(), noalloc: !cfg!(feature = "alloc"), release: RELEASE, foreign: None };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
    path
}

/// Adds what the coverage-guided part of a check did.
pub fn add_evidence(run: &Run, sum: &serde_json::Value, secs: f64, violations: u32) {
    let path = run.root.join("evidence").join(format!("{}.json", run.prop));
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let Ok(mut ev) = serde_json::from_str::<serde_json::Value>(&text) else { return };
    let c = &mut ev["coverage"];
    for k in ["evaluations", "nontrivial"] {
        c[k] = serde_json::json!(c[k].as_u64().unwrap_or(0) + sum[k].as_u64().unwrap_or(0));
    }
    c["coverage_guided"] = sum.clone();
    ev["wall_s"] = serde_json::json!(ev["wall_s"].as_f64().unwrap_or(0.0) + secs);
    ev["violations"] = serde_json::json!(violations);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n");
}

pub fn elapsed() -> f64 {
    START.get().map_or(0.0, |s| s.elapsed().as_secs_f64())
}

pub fn write_evidence(
    run: &Run,
    out: &Outcome,
    rule: &str,
    assumptions: &[&str],
    extra: serde_json::Value,
    violations: u32,
) {
    let mut coverage = serde_json::json!({
        "evaluations": out.stats.evaluations,
        "nontrivial": out.stats.nontrivial,
        "distinct_nontrivial": out.stats.distinct.len(),
        "distinct_counting": format!("hashes of at most {DISTINCT_CAP} non-trivial cases per shard, so a lower bound"),
        "rule": rule,
        "samples": out.stats.samples.iter().map(|s| serde_json::to_value(&s.1).unwrap()).collect::<Vec<_>>(),
        "classes": out.stats.labels,
        "phases": out.phases.iter().map(|(k, v)| serde_json::json!({"phase": k, "evaluations": v})).collect::<Vec<_>>(),
    });
    if let (Some(c), Some(e)) = (coverage.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let path = run.root.join("evidence").join(format!("{}.json", run.prop));
    if RELEASE {
        // The second part of a check: added to what the first part wrote.
        let first = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
        if let Some(mut ev) = first {
            let c = &mut ev["coverage"];
            for k in ["evaluations", "nontrivial"] {
                c[k] = serde_json::json!(c[k].as_u64().unwrap_or(0) + coverage[k].as_u64().unwrap_or(0));
            }
            coverage.as_object_mut().unwrap().retain(|k, _| ["evaluations", "nontrivial", "distinct_nontrivial", "phases", "note"].contains(&k.as_str()));
            c["build_without_debug_assertions"] = coverage;
            ev["wall_s"] = serde_json::json!(ev["wall_s"].as_f64().unwrap_or(0.0) + elapsed());
            ev["violations"] = serde_json::json!(violations);
            std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence must be writable");
            return;
        }
    }
    let ev = serde_json::json!({
        "property": run.prop,
        "tier": if run.thorough { "thorough" } else { "quick" },
        "seed": run.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": START.get().map_or(0.0, |s| s.elapsed().as_secs_f64()),
        "violations": violations,
    });
    let dir = run.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", run.prop)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence must be writable");
}
