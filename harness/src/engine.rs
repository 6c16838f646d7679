//! Runs one property: several worker processes, each a pure function of
//! (code, seed, worker index), merged into one verdict and one evidence file.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation cap

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
const ALLOC_EXIT: i32 = 97;
/// in a fuzz target every failure has to end in a signal
static FUZZING: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= l.size() {
            charge(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

fn charge(n: usize) {
    let live = LIVE.fetch_add(n, Ordering::Relaxed).saturating_add(n);
    if live > PEAK.load(Ordering::Relaxed) {
        PEAK.fetch_max(live, Ordering::Relaxed);
    }
    if live > LIMIT.load(Ordering::Relaxed) {
        if FUZZING.load(Ordering::Relaxed) {
            unsafe { libc::abort() }
        }
        unsafe { libc::_exit(ALLOC_EXIT) }
    }
}

/// Lets the current case allocate at most `bytes` more than what is live now.
pub fn limit_case_allocation(bytes: usize) {
    LIMIT.store(
        LIVE.load(Ordering::Relaxed).saturating_add(bytes),
        Ordering::Relaxed,
    );
}

/// Runs `f` and returns its result, the processor time it took (of this thread, in seconds) and
/// how far the memory in use rose above what it was before.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, f64, usize) {
    let clock = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    };
    let live = LIVE.load(Ordering::Relaxed);
    PEAK.store(live, Ordering::Relaxed);
    let start = clock();
    let out = f();
    let time = clock() - start;
    (out, time, PEAK.load(Ordering::Relaxed).saturating_sub(live))
}

pub const DEFAULT_CASE_ALLOC: usize = 1 << 30;

// ---------------------------------------------------------------- hang detection

/// A case that takes this much processor time (it would normally take milliseconds, and a few
/// seconds at the very most) is taken to never end.
const HANG_CPU: Duration = Duration::from_secs(90);
/// The same for a case that waits for something else (a thread, a child process).
const HANG_WALL: Duration = Duration::from_secs(300);
/// The limit while a case that does not end is being reduced; the result is run again with the
/// full limit before it is reported.
const HANG_CPU_REDUCING: Duration = Duration::from_secs(5);
const HANG_EXIT: i32 = 98;
/// number of the running case, 0 between cases
static RUNNING: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(1);
/// how many times the usual limits the running case may take
static PATIENCE: AtomicU32 = AtomicU32::new(1);
/// For a case that is known to take tens of seconds.
const PATIENCE_LONG: u32 = 4;

/// The running case takes tens of seconds when nothing is wrong.
pub fn expect_long_case() {
    PATIENCE.store(PATIENCE_LONG, Ordering::Relaxed);
}

fn cpu_time() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

/// Ends the process when one case runs for too long.
fn watch_for_hangs(limit: Duration) {
    std::thread::spawn(move || {
        let (mut seen, mut cpu, mut wall) = (0, cpu_time(), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = RUNNING.load(Ordering::Relaxed);
            let patience = PATIENCE.load(Ordering::Relaxed);
            if now != seen || now == 0 {
                (seen, cpu, wall) = (now, cpu_time(), Instant::now());
            } else if cpu_time() - cpu > limit * patience
                || wall.elapsed() > HANG_WALL * patience
            {
                unsafe { libc::_exit(HANG_EXIT) }
            }
        }
    });
}

// ---------------------------------------------------------------- property interface

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one execution of a case reports back besides its verdict.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// extra executions performed inside this case (fault points, cut points ...)
    pub sub_executions: u64,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
}

pub trait Prop: 'static {
    const ID: &'static str;
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    const LEVEL: &'static str = "exploration";
    /// number of generated cases (over all workers)
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// cases always run, before the generated ones
    fn directed(_tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    fn check(case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case<P: Prop>(case: &P::Case, obs: &mut Obs) -> Result<(), String> {
    limit_case_allocation(DEFAULT_CASE_ALLOC);
    PATIENCE.store(1, Ordering::Relaxed);
    RUNNING.store(NEXT.fetch_add(1, Ordering::Relaxed), Ordering::Relaxed);
    let r = guarded(|| P::check(case, obs)).and_then(|r| r);
    RUNNING.store(0, Ordering::Relaxed);
    LIMIT.store(usize::MAX, Ordering::Relaxed);
    r
}

/// Why a process that was running a case died, if the case is to blame.
fn cause_of_death(st: &std::process::ExitStatus) -> Option<String> {
    match (st.code(), st.signal()) {
        (Some(ALLOC_EXIT), _) => Some("allocated beyond the limit for this case".to_string()),
        (Some(HANG_EXIT), _) => Some(format!(
            "does not end ({} s of processor time or {} s of waiting, or {} times as much for a case expected to take long)",
            HANG_CPU.as_secs(),
            HANG_WALL.as_secs(),
            PATIENCE_LONG
        )),
        (_, Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))) => {
            Some(format!("process died with signal {}", s))
        }
        _ => None,
    }
}

/// Runs a case in a forked process. Only the worker's single thread exists at that point.
fn run_forked<P: Prop>(case: &P::Case) -> Result<(), String> {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        watch_for_hangs(HANG_CPU_REDUCING);
        let mut obs = Obs::default();
        let r = run_case::<P>(case, &mut obs);
        unsafe { libc::_exit(r.is_err() as i32) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let st = std::process::ExitStatus::from_raw(st);
    // only what ends the process counts here
    cause_of_death(&st).map_or(Ok(()), Err)
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    evaluations: u64,
    directed: u64,
    sub_executions: u64,
    nontrivial_hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
    error: Option<String>,
    /// processor time of the slowest case
    slowest_s: f64,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    case: String,
    message: String,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    case: serde_json::Value,
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn rng_for(id: &str, seed: u64, worker: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut z = seed ^ hash_str(id).rotate_left(17) ^ worker.wrapping_mul(0xA076_1D64_78BD_642F);
    for c in bytes.chunks_mut(8) {
        z = splitmix(z);
        c.copy_from_slice(&z.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

struct Recorder {
    report: WorkerReport,
    hashes: HashSet<u64>,
    failed: bool,
}

impl Recorder {
    fn note(&mut self, json: &str, obs: &Obs) {
        self.report.evaluations += 1;
        self.report.sub_executions += obs.sub_executions;
        let mut seen: Vec<&str> = Vec::new();
        for l in &obs.labels {
            if !seen.contains(l) {
                seen.push(l);
                *self.report.labels.entry(l.to_string()).or_insert(0) += 1;
            }
        }
        if obs.nontrivial {
            let h = hash_str(json);
            if self.hashes.insert(h) {
                self.report.nontrivial_hashes.push(h);
                if self.report.samples.len() < 2 && json.len() < 900 {
                    self.report.samples.push(json.to_string());
                }
            }
        }
    }
}

fn worker<P: Prop>(args: &Args, idx: u64, n: u64, scratch: &Path) -> i32 {
    install_hook();
    // None: run everything. Some(k): only reduce the k-th generated case, which ends the process
    // that runs it, by running every candidate in a process of its own.
    let reduce = args.reduce;
    if reduce.is_none() {
        watch_for_hangs(HANG_CPU);
    }
    let generated = Cell::new(0u64);
    let is_generated = Cell::new(false);
    let cur = scratch.join(format!("w{}.cur", idx));
    let rec = RefCell::new(Recorder {
        report: WorkerReport::default(),
        hashes: HashSet::new(),
        failed: false,
    });
    let exec = |case: &P::Case| -> Result<(), String> {
        let json = serde_json::to_string(case).expect("case serialises");
        let nr = generated.get();
        if is_generated.get() {
            generated.set(nr + 1);
        }
        if let Some(k) = reduce {
            return if nr < k { Ok(()) } else { run_forked::<P>(case) };
        }
        let nr = if is_generated.get() { nr.to_string() } else { "directed".into() };
        let _ = std::fs::write(&cur, format!("{}\n{}", nr, json));
        let mut obs = Obs::default();
        let before = cpu_time();
        let r = run_case::<P>(case, &mut obs);
        let mut rec = rec.borrow_mut();
        rec.report.slowest_s = rec.report.slowest_s.max((cpu_time() - before).as_secs_f64());
        if r.is_err() {
            rec.failed = true;
        } else if !rec.failed {
            rec.note(&json, &obs);
        }
        r
    };

    let mut failure = None;
    // saved regressions and directed cases are spread over the workers
    let mut fixed: Vec<P::Case> = P::directed(args.tier);
    fixed.extend(load_regressions::<P>(args));
    for (k, case) in fixed.iter().enumerate() {
        if reduce.is_none() && k as u64 % n == idx {
            rec.borrow_mut().report.directed += 1;
            if let Err(m) = exec(case) {
                failure = Some(Failure {
                    case: serde_json::to_string(case).unwrap(),
                    message: m,
                });
                break;
            }
        }
    }

    let total = args.cases.unwrap_or_else(|| P::cases(args.tier)) as u64;
    let share = (total / n + (idx < total % n) as u64) as u32;
    if failure.is_none() && share > 0 {
        let config = Config {
            cases: share,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 25_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng_for(P::ID, args.seed, idx));
        let strat = P::strategy(args.tier);
        is_generated.set(true);
        match runner.run(&strat, |case| exec(&case).map_err(TestCaseError::fail)) {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                failure = Some(Failure {
                    case: serde_json::to_string(&case).unwrap(),
                    message: reason.message().to_string(),
                })
            }
            Err(TestError::Abort(reason)) => {
                rec.borrow_mut().report.error = Some(format!("aborted: {}", reason.message()))
            }
        }
    }
    if reduce.is_some() {
        let reduced = failure.map(|f| serde_json::to_vec(&f).unwrap()).unwrap_or_default();
        let _ = std::fs::write(scratch.join(format!("w{}.reduced", idx)), reduced);
        return 0;
    }
    let mut report = rec.into_inner().report;
    report.failure = failure;
    std::fs::write(
        scratch.join(format!("w{}.json", idx)),
        serde_json::to_vec(&report).unwrap(),
    )
    .expect("report written");
    0
}

// ---------------------------------------------------------------- coverage-guided search

/// The tree of cases that the generators make when `bytes` are their source of randomness.
fn tree_of<P: Prop>(strat: &BoxedStrategy<P::Case>, bytes: &[u8]) -> Option<Box<dyn ValueTree<Value = P::Case>>> {
    let config = Config { failure_persistence: None, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
    strat.new_tree(&mut TestRunner::new_with_rng(config, rng)).ok()
}

/// The body of a fuzz target: bytes are turned into a case by the generators of the property.
/// A failing case ends the process with a signal. Now and then it writes to `VERIF_FUZZ_STATS`
/// how many cases were run and how many of them were distinct and non-trivial.
/// With `VERIF_FUZZ_REDUCE` the one input is a failing one; the case is reduced and written there.
pub fn fuzz_target<P: Prop>() -> impl FnMut(&[u8]) {
    install_hook();
    let reduce = std::env::var_os("VERIF_FUZZ_REDUCE");
    FUZZING.store(reduce.is_none(), Ordering::Relaxed);
    let strat = P::strategy(Tier::Thorough);
    let stats = std::env::var_os("VERIF_FUZZ_STATS");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut runs = 0u64;
    move |bytes: &[u8]| {
        if let Some(out) = &reduce {
            if let Some(f) = reduce_bytes::<P>(&strat, bytes) {
                std::fs::write(out, serde_json::to_vec(&f).unwrap()).expect("written");
            }
            unsafe { libc::_exit(0) }
        }
        let Some(tree) = tree_of::<P>(&strat, bytes) else { return };
        let case = tree.current();
        let mut obs = Obs::default();
        if let Err(m) = run_case::<P>(&case, &mut obs) {
            eprintln!("{}: {}", P::ID, m);
            unsafe { libc::abort() }
        }
        runs += 1;
        if obs.nontrivial {
            seen.insert(hash_str(&serde_json::to_string(&case).expect("case serialises")));
        }
        if let (Some(file), true) = (&stats, runs.is_power_of_two() || runs % 256 == 0) {
            let _ = std::fs::write(file, format!("{} {}", runs, seen.len()));
        }
    }
}

const FUZZ_MAX_LEN: usize = 8192;

/// Makes the case of `bytes`, which fails, and reduces it.
fn reduce_bytes<P: Prop>(strat: &BoxedStrategy<P::Case>, bytes: &[u8]) -> Option<Failure> {
    let mut tree = tree_of::<P>(strat, bytes)?;
    // every candidate in a process of its own, which also tells what ends the process
    let fails = |case: &P::Case| -> Option<String> {
        let mut pipe = [0; 2];
        unsafe { libc::pipe(pipe.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            watch_for_hangs(HANG_CPU);
            let mut obs = Obs::default();
            let r = run_case::<P>(case, &mut obs);
            if let Err(m) = &r {
                let m = &m.as_bytes()[..m.len().min(4000)];
                unsafe { libc::write(pipe[1], m.as_ptr().cast(), m.len()) };
            }
            unsafe { libc::_exit(r.is_err() as i32) }
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        unsafe { libc::close(pipe[1]) };
        let mut buf = vec![0u8; 4096];
        let n = unsafe { libc::read(pipe[0], buf.as_mut_ptr().cast(), buf.len()) }.max(0) as usize;
        unsafe { libc::close(pipe[0]) };
        let st = std::process::ExitStatus::from_raw(st);
        match st.code() {
            Some(0) => None,
            Some(1) => Some(String::from_utf8_lossy(&buf[..n]).to_string()),
            _ => cause_of_death(&st),
        }
    };
    let mut best = (tree.current(), fails(&tree.current())?);
    let start = Instant::now();
    'search: while start.elapsed() < Duration::from_secs(40) && tree.simplify() {
        loop {
            let case = tree.current();
            if let Some(m) = fails(&case) {
                best = (case, m);
                break;
            }
            if start.elapsed() > Duration::from_secs(40) || !tree.complicate() {
                break 'search;
            }
        }
    }
    Some(Failure { case: serde_json::to_string(&best.0).expect("case serialises"), message: best.1 })
}

#[derive(Default)]
struct FuzzReport {
    executions: u64,
    nontrivial: u64,
    corpus: usize,
    seconds: u64,
    /// the most edges of the crate that one process covered
    edges: u64,
    /// fuzz processes that failed on a case on which the ordinary build does not
    unconfirmed: u64,
    failure: Option<Failure>,
    error: Option<String>,
}

/// Runs the fuzz binary for a while in several processes that share a corpus.
fn fuzz_stage<P: Prop>(args: &Args, scratch: &Path, binary: &Path, seconds: u64) -> FuzzReport {
    let corpus = scratch.join("corpus");
    std::fs::create_dir_all(&corpus).expect("scratch directory");
    // random bytes to start with: a generator reads them as its random numbers
    let mut z = args.seed ^ hash_str(P::ID);
    for k in 0..256 {
        let bytes: Vec<u8> = (0..[32, 256, 1024, FUZZ_MAX_LEN][k % 4] / 8)
            .flat_map(|_| {
                z = splitmix(z);
                z.to_le_bytes()
            })
            .collect();
        std::fs::write(corpus.join(format!("seed{}", k)), bytes).expect("scratch file");
    }
    let n = args.workers;
    let children: Vec<_> = (0..n)
        .map(|i| {
            let log = std::fs::File::create(scratch.join(format!("f{}.log", i))).expect("scratch file");
            Command::new(binary)
                .arg(&corpus)
                .arg(format!("-max_total_time={}", seconds))
                .arg(format!("-seed={}", (splitmix(args.seed ^ (i + 1)) & 0x7fff_ffff) | 1))
                .arg(format!("-artifact_prefix={}/f{}-", scratch.display(), i))
                .arg(format!("-max_len={}", FUZZ_MAX_LEN))
                .args(["-len_control=0", "-use_value_profile=1", "-timeout=120", "-rss_limit_mb=0", "-reload=1"])
                .env("VERIF_FUZZ_ID", P::ID)
                .env("VERIF_FUZZ_STATS", scratch.join(format!("f{}.stats", i)))
                .env("VERIF_SCRATCH", scratch)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(log)
                .spawn()
                .expect("fuzz target starts")
        })
        .collect();
    let mut report = FuzzReport { seconds, ..FuzzReport::default() };
    let mut died = Vec::new();
    for (i, mut c) in children.into_iter().enumerate() {
        let st = c.wait().expect("wait");
        if !st.success() {
            died.push((i, st));
        }
        let stats = std::fs::read_to_string(scratch.join(format!("f{}.stats", i))).unwrap_or_default();
        let mut numbers = stats.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
        report.executions += numbers.next().unwrap_or(0);
        report.nontrivial += numbers.next().unwrap_or(0);
    }
    report.corpus = std::fs::read_dir(&corpus).map(|d| d.count()).unwrap_or(0);
    for i in 0..n {
        let log = std::fs::read(scratch.join(format!("f{}.log", i))).unwrap_or_default();
        let log = String::from_utf8_lossy(&log);
        let cov = log.rsplit("cov: ").next().and_then(|t| t.split(' ').next()).and_then(|t| t.parse().ok());
        report.edges = report.edges.max(cov.unwrap_or(0));
    }
    for (i, st) in died {
        let artifact = std::fs::read_dir(scratch)
            .expect("readable")
            .flatten()
            .map(|e| e.path())
            .find(|p| p.file_name().unwrap().to_string_lossy().starts_with(&format!("f{}-", i)));
        let Some(artifact) = artifact else {
            report.error = Some(format!("fuzz process {} ended with {:?}", i, st));
            continue;
        };
        let out = scratch.join("reduced-bytes.json");
        let _ = std::fs::remove_file(&out);
        let _ = Command::new(binary)
            .arg(&artifact)
            .args(["-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0"])
            .args(["-handle_xfsz=0", "-timeout=100000", "-rss_limit_mb=0"])
            .env("VERIF_FUZZ_ID", P::ID)
            .env("VERIF_FUZZ_REDUCE", &out)
            .env("VERIF_SCRATCH", scratch)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        let found = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Failure>(&b).ok());
        // a failure is one of the build that is not instrumented
        match found.filter(|f| fails_in_replay::<P>(f, scratch)) {
            Some(f) => {
                report.failure = Some(f);
                break;
            }
            None => report.unconfirmed += 1,
        }
    }
    report
}

/// Whether the case fails in a process of its own.
fn fails_in_replay<P: Prop>(f: &Failure, scratch: &Path) -> bool {
    let Ok(case) = serde_json::from_str(&f.case) else { return false };
    let r = Replay { property: P::ID.into(), message: f.message.clone(), case };
    let file = scratch.join("confirm.json");
    std::fs::write(&file, serde_json::to_vec(&r).unwrap()).expect("scratch file");
    let st = Command::new(std::env::current_exe().expect("own path"))
        .args([P::ID, "replay-here"])
        .arg(&file)
        .env("VERIF_SCRATCH", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("replay starts");
    st.code() == Some(1) || cause_of_death(&st).is_some()
}

fn load_regressions<P: Prop>(args: &Args) -> Vec<P::Case> {
    let dir = args.root.join("regressions").join(P::ID);
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files
        .iter()
        .filter(|f| f.extension().map_or(false, |e| e == "json"))
        .map(|f| {
            let r: Replay = serde_json::from_slice(&std::fs::read(f).expect("regression readable"))
                .unwrap_or_else(|e| panic!("regression {:?}: {}", f, e));
            serde_json::from_value(r.case).unwrap_or_else(|e| panic!("regression {:?}: {}", f, e))
        })
        .collect()
}

// ---------------------------------------------------------------- parent

pub struct Args {
    pub seed: u64,
    pub tier: Tier,
    pub root: PathBuf,
    pub cases: Option<u32>,
    pub workers: u64,
    /// see `worker`
    pub reduce: Option<u64>,
    /// the fuzz target and how long to run it
    pub fuzz: Option<PathBuf>,
    pub fuzz_seconds: Option<u64>,
}

pub fn args_from_env() -> Args {
    let env = |k: &str| std::env::var(k).ok();
    Args {
        seed: env("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        root: PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| "/verif".into())),
        cases: env("VERIF_CASES").and_then(|s| s.parse().ok()),
        workers: env("VERIF_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
        reduce: env("VERIF_REDUCE").and_then(|s| s.parse().ok()),
        fuzz: env("VERIF_FUZZ").map(PathBuf::from),
        fuzz_seconds: env("VERIF_FUZZ_SECONDS").and_then(|s| s.parse().ok()),
    }
}

fn write_replay(args: &Args, id: &str, f: &Failure) -> PathBuf {
    let dir = args.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", id, hash_str(&f.case)));
    let replay = Replay {
        property: id.into(),
        message: f.message.clone(),
        case: serde_json::from_str(&f.case).unwrap_or(serde_json::Value::Null),
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&replay).unwrap()).expect("replay written");
    path
}

/// Runs property `P` according to the command line; returns the exit code.
pub fn run<P: Prop>(argv: &[String]) -> i32 {
    let args = args_from_env();
    match argv.first().map(String::as_str) {
        Some("worker") => {
            let idx = argv[1].parse().unwrap();
            let n = argv[2].parse().unwrap();
            worker::<P>(&args, idx, n, Path::new(&argv[3]))
        }
        // in a process of its own: the case may end it
        Some("replay") => {
            let exe = std::env::current_exe().expect("own path");
            let st = Command::new(&exe)
                .args([P::ID, "replay-here", &argv[1]])
                .status()
                .expect("replay starts");
            let why = cause_of_death(&st);
            if let Some(m) = &why {
                println!("replay of {}: {}", P::ID, m);
            }
            if why.is_some() || st.code() == Some(1) {
                println!("VIOLATION property={} replay={}", P::ID, argv[1]);
                return 1;
            }
            st.code().unwrap_or(2)
        }
        Some("replay-here") => {
            install_hook();
            watch_for_hangs(HANG_CPU);
            let r: Replay = serde_json::from_slice(&std::fs::read(&argv[1]).expect("readable"))
                .expect("replay file");
            let case: P::Case = serde_json::from_value(r.case).expect("case of this property");
            let mut obs = Obs::default();
            match run_case::<P>(&case, &mut obs) {
                Ok(()) => {
                    println!("replay of {}: holds", P::ID);
                    0
                }
                Err(m) => {
                    println!("replay of {}: {}", P::ID, m);
                    1
                }
            }
        }
        _ => parent::<P>(&args),
    }
}

/// Reduces the `nr`-th generated case of worker `i`, which ends the process that runs it.
fn reduce_fatal<P: Prop>(args: &Args, scratch: &Path, i: usize, nr: u64) -> Option<Failure> {
    let exe = std::env::current_exe().expect("own path");
    let quiet = |c: &mut Command| {
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()
    };
    quiet(
        Command::new(&exe)
            .args([P::ID, "worker", &i.to_string(), &args.workers.to_string()])
            .arg(scratch)
            .env("VERIF_SCRATCH", scratch)
            .env("VERIF_REDUCE", nr.to_string()),
    )?;
    let bytes = std::fs::read(scratch.join(format!("w{}.reduced", i))).ok()?;
    let mut f: Failure = serde_json::from_slice(&bytes).ok()?;
    // confirm it with the limits of a normal run
    let file = scratch.join("reduced.json");
    let case = serde_json::from_str(&f.case).ok()?;
    let r = Replay { property: P::ID.into(), message: f.message.clone(), case };
    std::fs::write(&file, serde_json::to_vec(&r).ok()?).ok()?;
    let st = quiet(Command::new(&exe).args([P::ID, "replay-here"]).arg(&file).env("VERIF_SCRATCH", scratch))?;
    f.message = cause_of_death(&st)?;
    Some(f)
}

fn parent<P: Prop>(args: &Args) -> i32 {
    let start = Instant::now();
    let scratch = std::env::temp_dir().join(format!("adhoc_verif.{}.{}", P::ID, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let code = parent_in::<P>(args, &scratch, start);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn parent_in<P: Prop>(args: &Args, scratch: &Path, start: Instant) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let n = args.workers;
    let limit = Duration::from_secs(if args.tier == Tier::Quick { 780 } else { 6 * 3600 });
    let mut children: Vec<_> = (0..n)
        .map(|i| {
            Some(
                Command::new(&exe)
                    .args([P::ID, "worker", &i.to_string(), &n.to_string()])
                    .arg(scratch)
                    .env("VERIF_SCRATCH", scratch)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("worker starts"),
            )
        })
        .collect();
    let mut statuses = vec![None; n as usize];
    while children.iter().any(Option::is_some) {
        for i in 0..children.len() {
            let done = match &mut children[i] {
                Some(c) => c.try_wait().expect("wait"),
                None => None,
            };
            if let Some(s) = done {
                statuses[i] = Some(s);
                children[i] = None;
            }
        }
        if start.elapsed() > limit {
            for c in children.iter_mut().flatten() {
                let _ = c.kill();
                let _ = c.wait();
            }
            eprintln!("{}: time budget exhausted, no verdict", P::ID);
            return 2;
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    let mut merged = WorkerReport::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut failures: Vec<Failure> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    for i in 0..n as usize {
        let st = statuses[i].unwrap();
        if st.success() {
            let r: WorkerReport = match std::fs::read(scratch.join(format!("w{}.json", i)))
                .map_err(|e| e.to_string())
                .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
            {
                Ok(r) => r,
                Err(e) => {
                    errors.push(format!("worker {}: no report: {}", i, e));
                    continue;
                }
            };
            merged.evaluations += r.evaluations;
            merged.directed += r.directed;
            merged.sub_executions += r.sub_executions;
            hashes.extend(r.nontrivial_hashes.iter());
            for (k, v) in r.labels {
                *merged.labels.entry(k).or_insert(0) += v;
            }
            merged.samples.extend(r.samples);
            merged.slowest_s = merged.slowest_s.max(r.slowest_s);
            failures.extend(r.failure);
            errors.extend(r.error);
        } else {
            // the process died while running the case it had noted
            let cur = std::fs::read_to_string(scratch.join(format!("w{}.cur", i))).unwrap_or_default();
            let (nr, case) = cur.split_once('\n').unwrap_or_default();
            match cause_of_death(&st) {
                Some(m) if !case.is_empty() => {
                    let found = Failure { case: case.to_string(), message: m };
                    // reducing such a case is slow: once will do
                    let reduced = nr
                        .parse()
                        .ok()
                        .filter(|_| failures.is_empty())
                        .and_then(|nr| reduce_fatal::<P>(args, scratch, i, nr));
                    failures.push(reduced.unwrap_or(found))
                }
                _ => errors.push(format!("worker {} ended with {:?}", i, st)),
            }
        }
    }
    merged.samples.truncate(4);
    let mut fuzzing = serde_json::Value::Null;
    if let (Some(binary), Some(seconds)) = (&args.fuzz, args.fuzz_seconds) {
        if failures.is_empty() && errors.is_empty() {
            let r = fuzz_stage::<P>(args, scratch, binary, seconds);
            fuzzing = serde_json::json!({
                "method": "libFuzzer drives the generators of this property with mutated bytes, guided by coverage of the crate",
                "executions": r.executions,
                "distinct_nontrivial_per_process_summed": r.nontrivial,
                "corpus": r.corpus,
                "seconds": r.seconds,
                "edges": r.edges,
                "unconfirmed": r.unconfirmed,
            });
            failures.extend(r.failure);
            errors.extend(r.error);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let evidence = serde_json::json!({
        "property": P::ID,
        "tier": if args.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": args.seed,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": merged.evaluations,
            "directed_evaluations": merged.directed,
            "sub_executions": merged.sub_executions,
            "distinct_nontrivial": hashes.len(),
            "rule": P::RULE,
            "samples": merged.samples,
            "classes": merged.labels,
            "workers": n,
            "slowest_case_cpu_s": merged.slowest_s,
            "coverage_guided": fuzzing,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": failures.len(),
    });
    let dir = args.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", P::ID)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .expect("evidence written");

    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(
        out,
        "{}: {} cases ({} directed, {} sub-executions), {} distinct non-trivial, {:.1}s, seed {}",
        P::ID, merged.evaluations, merged.directed, merged.sub_executions, hashes.len(), wall, args.seed
    );
    for (k, v) in &merged.labels {
        let _ = writeln!(out, "    {:>8}  {}", v, k);
    }
    if !failures.is_empty() {
        failures.sort_by_key(|f| f.case.len());
        let f = &failures[0];
        let path = write_replay(args, P::ID, f);
        let _ = writeln!(out, "{}: {}", P::ID, f.message);
        let _ = writeln!(out, "{}: case {}", P::ID, clip(&f.case, 1500));
        let _ = writeln!(out, "VIOLATION property={} replay={}", P::ID, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("{}: {}", P::ID, e);
        }
        return 2;
    }
    0
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        format!("{}... ({} bytes)", s.chars().take(n).collect::<String>(), s.len())
    }
}
