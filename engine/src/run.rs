//! Runs the jobs of a property: generates cases, shrinks failures, writes replay and evidence files.
//!
//! A property is a list of jobs. A case is (job, case number); its choices are a function of the seed, the
//! job's name and the case number, so a run is a pure function of the code under test and `VERIF_SEED`.
//! The supervisor process runs the jobs in a child; if the child is killed by a signal the cases that were
//! running are repeated one by one to find the one that does it.
use crate::consts;
use crate::cov;
use crate::guide::{Corpus, Tracer, GUIDED};
use crate::source::{hash_bytes, shrink, Rng, Source};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = Box<dyn Fn(&mut Source, &mut Ctx) -> Result<(), String> + Send + Sync>;

pub struct Job {
    pub name: String,
    pub cases: u64,
    /// Cases are 0..cases of a finite space instead of random.
    pub indexed: bool,
    pub run: CaseFn,
}

impl Job {
    pub fn random(
        name: impl Into<String>,
        cases: u64,
        run: impl Fn(&mut Source, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
    ) -> Job {
        Job { name: name.into(), cases, indexed: false, run: Box::new(run) }
    }
    pub fn indexed(
        name: impl Into<String>,
        cases: u64,
        run: impl Fn(&mut Source, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
    ) -> Job {
        Job { name: name.into(), cases, indexed: true, run: Box::new(run) }
    }
}

#[derive(Clone)]
pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub repo: PathBuf,
}

impl Env {
    /// Number of cases: `quick`, or `mult` times that in the thorough tier.
    pub fn cases(&self, quick: u64, mult: u64) -> u64 {
        if self.thorough {
            quick * mult
        } else {
            quick
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// The death of the process (stack overflow, allocation failure) breaks the property.
    pub death_is_violation: bool,
    pub jobs: fn(&Env) -> Vec<Job>,
}

/// An input that is tried in a process of its own because it may kill it. When it does, that is the known
/// finding listed under `name` in known_findings.txt, and a violation when it is not listed there.
pub struct Probe {
    pub prop: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    pub run: fn(),
}

/// What one case tells the runner.
#[derive(Default)]
pub struct Ctx {
    labels: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    evals: u64,
    samples: Vec<String>,
    want_sample: bool,
    /// Set while describing a failure.
    pub report: bool,
    pub notes: Vec<String>,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        match self.labels.get_mut(l) {
            Some(n) => *n += 1,
            None => {
                self.labels.insert(l.to_string(), 1);
            }
        }
    }
    /// Marks the case as non-trivial; `key` identifies it.
    pub fn nontrivial(&mut self, key: &[&[u8]]) {
        let mut h = 0x1234_5678;
        for k in key {
            h = hash_bytes(h, k);
        }
        self.hashes.push(h);
    }
    /// Further executions within this case.
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.report {
            self.notes.push(f());
        } else if self.want_sample && self.samples.len() < 4 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("..");
            }
            self.samples.push(s);
        }
    }
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs library code. A panic inside is the library's (`Err`), a panic outside is the harness's.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = IN_LIB.with(|c| c.replace(true));
    let recording = cov::recording(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    cov::recording(recording);
    IN_LIB.with(|c| c.set(before));
    r.map_err(|_| {
        crate::alloc::stop();
        format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))
    })
}

struct CaseOut {
    result: Result<(), String>,
    harness_panic: Option<String>,
    rec: Vec<u64>,
    caps: Vec<u64>,
}

fn run_case(job: &Job, mut src: Source, ctx: &mut Ctx) -> CaseOut {
    IN_LIB.with(|c| c.set(false));
    cov::recording(false);
    let r = catch_unwind(AssertUnwindSafe(|| (job.run)(&mut src, ctx)));
    match r {
        Ok(result) => CaseOut { result, harness_panic: None, rec: src.rec, caps: src.caps },
        Err(_) => {
            crate::alloc::stop();
            CaseOut {
                result: Ok(()),
                harness_panic: Some(PANIC.with(|p| p.borrow().clone())),
                rec: src.rec,
                caps: src.caps,
            }
        }
    }
}

fn source_of(env: &Env, job: &Job, case: u64) -> Source {
    if job.indexed {
        Source::indexed(case)
    } else {
        Source::random(hash_bytes(env.seed ^ case.wrapping_mul(0x9e37_79b9), job.name.as_bytes()))
    }
}

/// The cases of a job up to `last`: for failures that need earlier ones.
fn history(env: &Env, job: &Job, last: u64) -> Result<(), String> {
    for case in 0..=last {
        run_case(job, source_of(env, job, case), &mut Ctx::default())
            .result
            .map_err(|m| format!("case {case}, after those before it: {m}"))?;
    }
    Ok(())
}

fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::stop();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

struct Failure {
    job: usize,
    case: u64,
    rec: Vec<u64>,
    msg: String,
}

/// Milliseconds since the start of the process at which a thread began its case, 0 when it runs none.
static BEGAN: [AtomicU64; THREADS + 1] = [const { AtomicU64::new(0) }; THREADS + 1];
/// The slot of the part that describes failures.
const REPORTING: usize = THREADS;
/// Exit code of a worker that gave up on a case.
const HUNG: i32 = 90;
/// A case takes milliseconds, the slowest a few seconds.
const CASE_LIMIT: Duration = Duration::from_secs(120);

fn case_limit() -> Duration {
    // For development only: the checks never set it.
    match std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()) {
        Some(n) => Duration::from_secs(n),
        None => CASE_LIMIT,
    }
}

fn clock(start: Instant) -> u64 {
    start.elapsed().as_millis() as u64 + 1
}

/// Ends the process when a case does not return.
fn watch(start: Instant) {
    let limit = case_limit().as_millis() as u64;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = clock(start);
        for b in &BEGAN {
            let b = b.load(Ordering::SeqCst);
            if b != 0 && now > b + limit {
                // Not `exit`: the other threads still run.
                eprintln!("a case has not returned for {} s", (now - b) / 1000);
                unsafe { _exit(HUNG) }
            }
        }
    });
}

extern "C" {
    fn _exit(code: i32) -> !;
}

const CHUNK: u64 = 128;
/// The guided stage looks at all jobs for so many seconds, then at some, then at all again. Each of the few should get
/// so many cases.
const ROUND: u64 = 8;
const ROUND_CASES: u64 = 3000;
const BATCH: u64 = 64;
const BATCH_TIME: Duration = Duration::from_millis(50);

fn guide_time(env: &Env) -> Duration {
    let s = std::env::var("VERIF_GUIDE").ok().and_then(|s| s.trim().parse().ok());
    Duration::from_secs(s.unwrap_or(if env.thorough { 600 } else { 15 }))
}
/// A run does not go on for long once it has found something.
const AFTER_FAILURE: Duration = Duration::from_secs(60);
const FAILING_JOBS: usize = 24;
/// Time a quick run may take before it ends with what it has explored.
const QUICK_LIMIT: Duration = Duration::from_secs(480);
const SHRINK_LIMIT: Duration = Duration::from_secs(20);
const THREADS: usize = 8;
const REC: u64 = 16;

pub fn main(props: &[Prop]) -> ! {
    main_with(props, &[])
}

pub fn main_with(props: &[Prop], probes: &[Probe]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}; known: {:?}", props.iter().map(|p| p.id).collect::<Vec<_>>());
        exit(2);
    };
    let env = Env {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())),
        repo: PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())),
    };
    match args.get(1).map(|s| s.as_str()) {
        None => supervise(prop, &env, probes),
        Some("--worker") => {
            consts::init(&env.repo, None);
            worker(prop, &env, Path::new(&args[2]))
        }
        // One case given by number, draws logged to a file as they are made.
        Some("--case") => {
            consts::init(&env.repo, None);
            set_hook();
            let jobs = (prop.jobs)(&env);
            let job = &jobs[args[2].parse::<usize>().unwrap()];
            let mut src = source_of(&env, job, args[3].parse().unwrap());
            src.log_to(File::create(&args[4]).unwrap());
            let out = with_stack(|| run_case(job, src, &mut Ctx::default()));
            exit(if out.result.is_err() { 1 } else { 0 })
        }
        // One guided case, as the worker wrote it down.
        Some("--guided") => {
            consts::init(&env.repo, None);
            set_hook();
            let jobs = (prop.jobs)(&env);
            let job = &jobs[args[2].parse::<usize>().unwrap()];
            let Some((seed, choices)) = read_guided(Path::new(&args[3])) else { exit(2) };
            let mut src = Source::guided(choices, seed);
            src.log_to(File::create(&args[4]).unwrap());
            let out = with_stack(|| run_case(job, src, &mut Ctx::default()));
            exit(if out.result.is_err() { 1 } else { 0 })
        }
        // One case given by its choices.
        Some("--choices") => {
            consts::init(&env.repo, None);
            set_hook();
            let jobs = (prop.jobs)(&env);
            let job = &jobs[args[2].parse::<usize>().unwrap()];
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let choices = text.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let mut ctx = Ctx::default();
            ctx.report = true;
            let out = with_stack(|| run_case(job, Source::replay(choices), &mut ctx));
            exit(if out.result.is_err() { 1 } else { 0 })
        }
        // All cases of a job up to one, in order, in one process.
        Some("--history") => {
            consts::init(&env.repo, None);
            set_hook();
            let jobs = (prop.jobs)(&env);
            let job = &jobs[args[2].parse::<usize>().unwrap()];
            let last = args[3].parse().unwrap();
            exit(if with_stack(|| history(&env, job, last)).is_err() { 1 } else { 0 })
        }
        Some("--probe") => {
            set_hook();
            let Some(p) = probes.iter().find(|p| p.prop == prop.id && p.name == args[2]) else { exit(2) };
            // The stack a main thread has by default.
            let ok = std::thread::Builder::new().stack_size(8 << 20).spawn(p.run).unwrap().join().is_ok();
            exit(if ok { 0 } else { 1 })
        }
        // In a process of its own: the case may kill it, or not return.
        Some("--replay") => {
            let exe = std::env::current_exe().unwrap();
            let end = run_limited(Command::new(exe).args([prop.id, "--replay-here", &args[2]]), case_limit() * 2);
            let how = match end {
                End::Code(c) => exit(c),
                End::Crash(s) => format!("the process died with signal {s}"),
                End::Hang => "does not return".to_string(),
                End::Other => exit(2),
            };
            println!("{how}");
            println!("VIOLATION property={} replay={}", prop.id, args[2]);
            exit(1)
        }
        Some("--replay-here") => replay(prop, &env, Path::new(&args[2]), probes),
        Some("--list") => {
            consts::init(&env.repo, None);
            for j in (prop.jobs)(&env) {
                println!("{} {}", j.cases, j.name);
            }
            exit(0)
        }
        Some(x) => {
            eprintln!("unknown argument {x}");
            exit(2)
        }
    }
}

fn guided_file(journal: &Path, slot: usize) -> PathBuf {
    journal.with_extension(format!("guided{slot}"))
}

/// What a guided case is made of: the seed for what follows the choices, their number, the choices.
fn write_guided(f: &File, seed: u64, choices: &[u64]) {
    let mut b = Vec::with_capacity(16 + 8 * choices.len());
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(&(choices.len() as u64).to_le_bytes());
    for c in choices {
        b.extend_from_slice(&c.to_le_bytes());
    }
    let _ = f.write_at(&b, 0);
}

fn read_guided(path: &Path) -> Option<(u64, Vec<u64>)> {
    let b = std::fs::read(path).ok()?;
    let mut w = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
    let seed = w.next()?;
    let n = w.next()? as usize;
    Some((seed, w.take(n).collect()))
}

/// Runs on a thread with the stack size the workers use.
fn with_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

const STACK: usize = 16 << 20;

fn worker(prop: &Prop, env: &Env, journal: &Path) -> ! {
    set_hook();
    let start = Instant::now();
    let mut jobs = (prop.jobs)(env);
    // For development only: the checks never set it.
    if let Ok(only) = std::env::var("VERIF_ONLY") {
        for j in jobs.iter_mut().filter(|j| !j.name.contains(&only)) {
            j.cases = 0;
        }
    }
    let slow = std::env::var("VERIF_SLOW").is_ok();
    {
        let mut names: Vec<&str> = jobs.iter().map(|j| j.name.as_str()).collect();
        names.sort_unstable();
        if let Some(w) = names.windows(2).find(|w| w[0] == w[1]) {
            eprintln!("harness error: duplicate job {}", w[0]);
            exit(2);
        }
    }
    let journal_path = journal;
    let journal = File::options().read(true).write(true).open(journal).unwrap();
    let note = |slot: usize, job: usize, case: u64| {
        let mut rec = [0u8; REC as usize];
        rec[..8].copy_from_slice(&(job as u64 + 1).to_le_bytes());
        rec[8..].copy_from_slice(&case.to_le_bytes());
        let _ = journal.write_at(&rec, slot as u64 * REC);
        BEGAN[slot].store(clock(start), Ordering::SeqCst);
    };
    watch(start);
    let mut chunks: Vec<(usize, u64)> = vec![];
    for (j, job) in jobs.iter().enumerate() {
        let mut c = 0;
        while c < job.cases {
            chunks.push((j, c));
            c += CHUNK;
        }
    }
    let next = AtomicUsize::new(0);
    // When the first failure was found, in milliseconds from the start; 0 for none.
    let first_failure = AtomicU64::new(0);
    let failing = AtomicUsize::new(0);
    let unfinished = AtomicBool::new(false);
    let failed: Vec<AtomicBool> = jobs.iter().map(|_| AtomicBool::new(false)).collect();
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let evals = AtomicU64::new(0);
    type Merged = (BTreeMap<String, u64>, Vec<u64>, Vec<(usize, u64, String)>);
    let merged: Mutex<Merged> = Mutex::new(Default::default());
    let guided = cov::enabled() && guide_time(env) > Duration::ZERO;
    let corpora: Vec<Mutex<Corpus>> = jobs.iter().map(|_| Mutex::default()).collect();
    let (turn, guided_cases, guided_new) = (AtomicUsize::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let (random_nanos, random_cases) = (AtomicU64::new(0), AtomicU64::new(0));
    let barrier = std::sync::Barrier::new(THREADS);
    // Some of the jobs at a time.
    let mut guidable: Vec<usize> = (0..jobs.len()).filter(|j| !jobs[*j].indexed && jobs[*j].cases > 0).collect();
    guidable.sort_by_key(|j| hash_bytes(env.seed, jobs[*j].name.as_bytes()));
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (next, failed, failures, harness, evals, merged, jobs, chunks, journal, note, env) =
                (&next, &failed, &failures, &harness, &evals, &merged, &jobs, &chunks, &journal, &note, env);
            let (first_failure, failing, unfinished) = (&first_failure, &failing, &unfinished);
            let (corpora, guidable, random_nanos, random_cases, turn, guided_cases, guided_new, barrier) = (&corpora, &guidable, &random_nanos, &random_cases, &turn, &guided_cases, &guided_new, &barrier);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut hashes: Vec<u64> = vec![];
                    let mut samples: Vec<(usize, u64, String)> = vec![];
                    let mut n = 0u64;
                    let (mut nanos, mut cases) = (0u64, 0u64);
                    let mut tracer = Tracer::default();
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= chunks.len() || !harness.lock().unwrap().is_empty() {
                            break;
                        }
                        let found = first_failure.load(Ordering::SeqCst);
                        let enough = found != 0
                            && (failing.load(Ordering::SeqCst) >= FAILING_JOBS
                                || clock(start) > found + AFTER_FAILURE.as_millis() as u64);
                        if enough || !env.thorough && start.elapsed() > QUICK_LIMIT {
                            unfinished.store(true, Ordering::SeqCst);
                            break;
                        }
                        let (j, first) = chunks[k];
                        let job = &jobs[j];
                        // Chunks are taken in order, so every lower chunk of a failed job runs to its end
                        // or its own first failure, and the lowest failing case is always found.
                        if failed[j].load(Ordering::SeqCst) {
                            continue;
                        }
                        for case in first..(first + CHUNK).min(job.cases) {
                            note(t, j, case);
                            let mut ctx = Ctx { want_sample: case < 2, ..Default::default() };
                            let t0 = Instant::now();
                            let out = run_case(job, source_of(env, job, case), &mut ctx);
                            let took = t0.elapsed();
                            if slow && took.as_millis() > 300 {
                                eprintln!("slow: {} case {case}: {took:?}", job.name);
                            }
                            if !job.indexed {
                                nanos += took.as_nanos() as u64;
                                cases += 1;
                            }
                            n += 1 + ctx.evals;
                            for (l, c) in ctx.labels {
                                *labels.entry(l).or_insert(0) += c;
                            }
                            hashes.append(&mut ctx.hashes);
                            for x in ctx.samples {
                                samples.push((j, case, format!("{}#{case}: {x}", job.name)));
                            }
                            if let Some(p) = out.harness_panic {
                                harness.lock().unwrap().push(format!("{} case {case}: {p}", job.name));
                                break;
                            }
                            if let Err(msg) = out.result {
                                if !failed[j].swap(true, Ordering::SeqCst) {
                                    failing.fetch_add(1, Ordering::SeqCst);
                                }
                                let _ = first_failure.compare_exchange(0, clock(start), Ordering::SeqCst, Ordering::SeqCst);
                                failures.lock().unwrap().push(Failure { job: j, case, rec: out.rec, msg });
                                break;
                            }
                        }
                        // Keep memory flat in long runs.
                        if hashes.len() > 4_000_000 {
                            hashes.sort_unstable();
                            hashes.dedup();
                        }
                    }
                    let _ = journal.write_at(&[0u8; REC as usize], t as u64 * REC);
                    BEGAN[t].store(0, Ordering::SeqCst);
                    // Guided by what the library did so far.
                    random_nanos.fetch_add(nanos, Ordering::SeqCst);
                    random_cases.fetch_add(cases, Ordering::SeqCst);
                    barrier.wait();
                    let go = guided && first_failure.load(Ordering::SeqCst) == 0 && !guidable.is_empty();
                    if go {
                        cov::attach();
                    }
                    let stage = Instant::now();
                    let mut order: Vec<usize> = vec![];
                    let mut round = u64::MAX;
                    // Instrumented and changed for the worse, a case takes three times as long.
                    let each = 3 * random_nanos.load(Ordering::SeqCst) / random_cases.load(Ordering::SeqCst).max(1) * ROUND_CASES;
                    let some = (ROUND * 1_000_000_000 * THREADS as u64 / each.max(1)).clamp(48, 256) as usize;
                    let mut skipped = 0;
                    let deadline = stage + guide_time(env);
                    let log = File::create(guided_file(journal_path, t)).unwrap();
                    let mut rng = Rng::new(hash_bytes(env.seed ^ t as u64, b"guided"));
                    let mut hot: Option<usize> = None;
                    while go {
                        let r = stage.elapsed().as_secs() / ROUND;
                        if r != round {
                            round = r;
                            let n = guidable.len();
                            let (from, count) = if r % 2 == 0 { (0, n) } else { (r as usize / 2 * some, n.min(some)) };
                            order = (0..count).map(|i| guidable[(from + i) % n]).collect();
                            hot = None;
                        }
                        // In turn, or one that still does new things.
                        let j = match hot {
                            Some(j) if rng.upto(1) == 0 => j,
                            _ => order[turn.fetch_add(1, Ordering::SeqCst) % order.len()],
                        };
                        if corpora[j].lock().unwrap().useless() {
                            skipped += 1;
                            hot = None;
                            if skipped > 2 * order.len() {
                                std::thread::sleep(Duration::from_millis(20));
                            }
                            if stage.elapsed() > guide_time(env) {
                                break;
                            }
                            continue;
                        }
                        skipped = 0;
                        let began = Instant::now();
                        if began > deadline || first_failure.load(Ordering::SeqCst) != 0 || !harness.lock().unwrap().is_empty() {
                            break;
                        }
                        let mut found = 0;
                        for _ in 0..BATCH {
                            let choices = corpora[j].lock().unwrap().next(&mut rng);
                            let seed = rng.next();
                            write_guided(&log, seed, &choices);
                            let case = GUIDED + guided_cases.fetch_add(1, Ordering::SeqCst);
                            note(t, j, case);
                            let mut ctx = Ctx::default();
                            let t0 = Instant::now();
                            tracer.before();
                            let out = run_case(&jobs[j], Source::guided(choices, seed), &mut ctx);
                            let (features, pairs) = tracer.after();
                            found += corpora[j].lock().unwrap().learn(features, pairs, &out.rec, &out.caps, t0.elapsed()) as u64;
                            n += 1 + ctx.evals;
                            for (l, c) in ctx.labels {
                                *labels.entry(l).or_insert(0) += c;
                            }
                            hashes.append(&mut ctx.hashes);
                            if let Some(p) = out.harness_panic {
                                harness.lock().unwrap().push(format!("{} guided case: {p}: {:?}", jobs[j].name, out.rec));
                                break;
                            }
                            if let Err(msg) = out.result {
                                if !failed[j].swap(true, Ordering::SeqCst) {
                                    failing.fetch_add(1, Ordering::SeqCst);
                                }
                                let _ = first_failure.compare_exchange(0, clock(start).max(1), Ordering::SeqCst, Ordering::SeqCst);
                                failures.lock().unwrap().push(Failure { job: j, case, rec: out.rec, msg });
                                break;
                            }
                            if began.elapsed() > BATCH_TIME {
                                break;
                            }
                        }
                        guided_new.fetch_add(found, Ordering::SeqCst);
                        hot = (found > 0).then_some(j);
                        if hashes.len() > 4_000_000 {
                            hashes.sort_unstable();
                            hashes.dedup();
                        }
                    }
                    let _ = journal.write_at(&[0u8; REC as usize], t as u64 * REC);
                    BEGAN[t].store(0, Ordering::SeqCst);
                    evals.fetch_add(n, Ordering::SeqCst);
                    let mut m = merged.lock().unwrap();
                    for (l, c) in labels {
                        *m.0.entry(l).or_insert(0) += c;
                    }
                    m.1.append(&mut hashes);
                    m.2.append(&mut samples);
                })
                .unwrap();
        }
    });
    let harness = harness.into_inner().unwrap();
    if !harness.is_empty() {
        for h in harness.iter().take(5) {
            eprintln!("harness error: {h}");
        }
        exit(2);
    }
    let (labels, mut hashes, mut samples) = merged.into_inner().unwrap();
    hashes.sort_unstable();
    hashes.dedup();
    samples.sort();
    // The first failing case of each failing job.
    let mut first: BTreeMap<usize, Failure> = BTreeMap::new();
    for f in failures.into_inner().unwrap() {
        match first.get(&f.job) {
            Some(g) if g.case <= f.case => {}
            _ => {
                first.insert(f.job, f);
            }
        }
    }
    let total = first.len();
    let done = (next.load(Ordering::SeqCst).min(chunks.len()), chunks.len());
    let done = unfinished.load(Ordering::SeqCst).then_some(done);
    if let (Some((a, b)), 0) = (done, total) {
        println!("{}: stopped after {} s with {a} of {b} parts of the cases explored", prop.id, QUICK_LIMIT.as_secs());
    }
    let mut lines = vec![];
    for (i, f) in first.into_values().enumerate() {
        if i >= 4 {
            break;
        }
        if f.case >= GUIDED {
            write_guided(&File::create(guided_file(journal_path, REPORTING)).unwrap(), 0, &f.rec);
        }
        note(REPORTING, f.job, f.case);
        let beat = || BEGAN[REPORTING].store(clock(start), Ordering::SeqCst);
        lines.push(with_stack(|| report_failure(prop, env, &jobs, f, &beat)));
    }
    BEGAN[REPORTING].store(0, Ordering::SeqCst);
    let guided_cases = guided_cases.load(Ordering::SeqCst);
    let guidance = match (guided, guided_cases) {
        (false, _) => "the code under test is not instrumented".to_string(),
        (_, 0) => "no guided cases".to_string(),
        _ => format!(
            "{guided_cases} of the evaluated cases were changed from kept ones; {} did something new; {} instrumented branches",
            guided_new.load(Ordering::SeqCst),
            cov::branches()
        ),
    };
    // Samples spread over the jobs.
    let step = (samples.len() / 24).max(1);
    let shown: Vec<String> = samples.iter().step_by(step).take(30).map(|x| x.2.clone()).collect();
    let exhaustive: Vec<String> = jobs
        .iter()
        .filter(|j| j.indexed)
        .map(|j| format!("{} ({} cases)", j.name, j.cases))
        .collect();
    write_evidence(
        prop,
        env,
        evals.load(Ordering::SeqCst),
        hashes.len() as u64,
        &labels,
        &shown,
        jobs.len(),
        &exhaustive,
        start.elapsed().as_secs_f64(),
        total,
        done,
        &guidance,
    );
    for l in &lines {
        println!("{l}");
    }
    println!(
        "property={} jobs={} evaluations={} distinct_nontrivial={} guided={guided_cases} failing_jobs={} wall_s={:.1}",
        prop.id,
        jobs.len(),
        evals.load(Ordering::SeqCst),
        hashes.len(),
        total,
        start.elapsed().as_secs_f64()
    );
    exit(if total > 0 { 1 } else { 0 })
}

/// `beat` tells the watchdog that another case begins.
fn report_failure(prop: &Prop, env: &Env, jobs: &[Job], f: Failure, beat: &(dyn Fn() + Sync)) -> String {
    let job = &jobs[f.job];
    let (rec, msg) = if job.indexed {
        (f.rec, f.msg)
    } else {
        let began = Instant::now();
        shrink(f.rec, f.msg, 4000, &mut |cand| {
            if began.elapsed() > SHRINK_LIMIT {
                return None;
            }
            beat();
            let out = run_case(job, Source::replay(cand.to_vec()), &mut Ctx::default());
            match out.result {
                Err(m) => Some((out.rec, m)),
                Ok(()) => None,
            }
        })
    };
    let mut ctx = Ctx { report: true, ..Default::default() };
    let out = run_case(job, Source::replay(rec.clone()), &mut ctx);
    let msg = out.result.err().unwrap_or(msg);
    // In a process of its own, as the replay will be: the failure may need what came before it.
    let exe = std::env::current_exe().unwrap();
    let fails = |path: &Path| {
        beat();
        let mut c = Command::new(&exe);
        c.args([prop.id, "--replay-here"]).arg(path).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        !matches!(run_limited(&mut c, case_limit() / 2), End::Code(0))
    };
    let mut path = write_replay(prop, env, &job.name, f.case, &rec, &msg, &ctx.notes, "");
    for how in [format!("history {}", f.case.min(job.cases.saturating_sub(1))), "whole".to_string()] {
        if fails(&path) {
            break;
        }
        let _ = std::fs::remove_file(&path);
        path = write_replay(prop, env, &job.name, f.case, &rec, &msg, &ctx.notes, &how);
        if how == "whole" {
            println!("{}: the failure needs the cases before it", prop.id);
        }
    }
    println!("{}: {}: {}", prop.id, job.name, msg);
    for n in &ctx.notes {
        println!("    {n}");
    }
    format!("VIOLATION property={} replay={}", prop.id, path.display())
}

fn write_replay(
    prop: &Prop,
    env: &Env,
    job: &str,
    case: u64,
    rec: &[u64],
    msg: &str,
    notes: &[String],
    how: &str,
) -> PathBuf {
    let mut t = String::new();
    let _ = writeln!(t, "property {}", prop.id);
    let _ = writeln!(t, "seed {}", env.seed);
    let _ = writeln!(t, "tier {}", if env.thorough { "thorough" } else { "quick" });
    let _ = writeln!(t, "job {job}");
    let _ = writeln!(t, "case {case}");
    let _ = writeln!(t, "choices {}", rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(
        t,
        "constants {}",
        consts::harvested().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
    );
    if !how.is_empty() {
        let _ = writeln!(t, "{how}");
    }
    let _ = writeln!(t, "failure {}", msg.replace('\n', " "));
    for n in notes.iter().take(20) {
        let _ = writeln!(t, "note {}", n.replace('\n', " "));
    }
    let dir = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.txt", prop.id, hash_bytes(1, t.as_bytes())));
    if let Err(e) = std::fs::write(&path, t) {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

fn replay(prop: &Prop, env: &Env, file: &Path, probes: &[Probe]) -> ! {
    set_hook();
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {e}", file.display());
        exit(2)
    });
    let get = |k: &str| -> Option<String> {
        text.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).map(|s| s.to_string()))
    };
    if let Some(name) = get("probe") {
        let Some(p) = probes.iter().find(|p| p.prop == prop.id && p.name == name) else {
            eprintln!("no probe {name:?}");
            exit(2)
        };
        let exe = std::env::current_exe().unwrap();
        if probe_holds(&exe, p) {
            println!("{}: holds", p.what);
            exit(0)
        }
        println!("{}", p.what);
        println!("VIOLATION property={} replay={}", prop.id, file.display());
        exit(1)
    }
    let nums = |k: &str| -> Vec<u64> {
        get(k).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()
    };
    consts::init(&env.repo, Some(nums("constants")));
    let mut env = env.clone();
    env.seed = nums("seed").first().copied().unwrap_or(1);
    env.thorough = get("tier").is_some_and(|t| t == "thorough");
    let jobs = (prop.jobs)(&env);
    let name = get("job").unwrap_or_default();
    let Some(job) = jobs.iter().find(|j| j.name == name) else {
        eprintln!("no job {name:?}");
        exit(2)
    };
    let past = text.lines().any(|l| l.starts_with("history "));
    if past || text.lines().any(|l| l == "whole") {
        let r = if past {
            with_stack(|| history(&env, job, nums("history")[0]))
        } else {
            let end = Command::new(std::env::current_exe().unwrap())
                .arg(prop.id)
                .env("VERIF_SEED", env.seed.to_string())
                .env("VERIF_TIER", if env.thorough { "thorough" } else { "quick" })
                .status();
            exit(end.ok().and_then(|s| s.code()).unwrap_or(2))
        };
        match r {
            Ok(()) => {
                println!("{name}: holds");
                exit(0)
            }
            Err(m) => {
                println!("{name}: {m}");
                println!("VIOLATION property={} replay={}", prop.id, file.display());
                exit(1)
            }
        }
    }
    let choices = nums("choices");
    let (out, ctx) = with_stack(|| {
        let mut ctx = Ctx { report: true, ..Default::default() };
        let out = run_case(job, Source::replay(choices), &mut ctx);
        (out, ctx)
    });
    for n in &ctx.notes {
        println!("    {n}");
    }
    if let Some(p) = out.harness_panic {
        eprintln!("harness error: {p}");
        exit(2);
    }
    match out.result {
        Ok(()) => {
            println!("{name}: holds");
            exit(0)
        }
        Err(m) => {
            println!("{name}: {m}");
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            exit(1)
        }
    }
}

fn scratch(env: &Env) -> PathBuf {
    let d = env.root.join("target").join(format!("run-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| {
        eprintln!("{}: {e}", d.display());
        exit(2)
    });
    d
}

fn probe_holds(exe: &Path, p: &Probe) -> bool {
    let st = Command::new(exe)
        .args([p.prop, "--probe", p.name])
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .status();
    match st {
        Ok(s) if s.success() => true,
        Ok(s) if s.code() == Some(1) || s.signal().is_some_and(is_crash) => false,
        x => {
            eprintln!("probe {}: {x:?}", p.name);
            exit(2)
        }
    }
}

/// 1 if an unlisted probe fails.
fn run_probes(prop: &Prop, env: &Env, exe: &Path, probes: &[Probe]) -> i32 {
    let listed = std::fs::read_to_string(env.root.join("known_findings.txt")).unwrap_or_default();
    let mut code = 0;
    for p in probes.iter().filter(|p| p.prop == prop.id) {
        if probe_holds(exe, p) {
            continue;
        }
        let entry = format!("finding: property={} probe={} ", p.prop, p.name);
        if listed.lines().any(|l| l.starts_with(&entry)) {
            println!("KNOWN-FINDING: property={} probe={} {}", p.prop, p.name, p.what);
            continue;
        }
        let dir = env.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-probe-{}.txt", p.prop, p.name));
        let _ = std::fs::write(&path, format!("property {}\nprobe {}\nfailure {}\n", p.prop, p.name, p.what));
        println!("{}: {}", p.prop, p.what);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }
    code
}

fn supervise(prop: &Prop, env: &Env, probes: &[Probe]) -> ! {
    let exe = std::env::current_exe().unwrap();
    let probed = run_probes(prop, env, &exe, probes);
    let dir = scratch(env);
    let journal = dir.join("journal");
    std::fs::write(&journal, vec![0u8; (THREADS + 1) * REC as usize]).unwrap();
    let status = Command::new(&exe)
        .args([prop.id, "--worker"])
        .arg(&journal)
        .status()
        .unwrap_or_else(|e| {
            eprintln!("cannot start the worker: {e}");
            exit(2)
        });
    let code = match status.code() {
        Some(HUNG) => died(prop, env, &exe, &dir, &journal, 0),
        Some(c) => c,
        None => died(prop, env, &exe, &dir, &journal, status.signal().unwrap_or(0)),
    };
    let _ = std::fs::remove_dir_all(&dir);
    exit(match code {
        0 => probed,
        101 => 2,
        c => c,
    })
}

/// SIGILL, SIGABRT, SIGBUS, SIGSEGV: the code itself died. Anything else came from outside.
fn is_crash(sig: i32) -> bool {
    [4, 6, 7, 11].contains(&sig)
}

enum End {
    Code(i32),
    Crash(i32),
    Hang,
    Other,
}

/// Runs a command that may die or not return.
fn run_limited(cmd: &mut Command, limit: Duration) -> End {
    let Ok(mut child) = cmd.spawn() else { return End::Other };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(s)) if is_crash(s) => End::Crash(s),
                    _ => End::Other,
                }
            }
            Ok(None) if start.elapsed() < limit => std::thread::sleep(Duration::from_millis(3)),
            x => {
                let _ = child.kill();
                let _ = child.wait();
                return if x.is_ok() { End::Hang } else { End::Other };
            }
        }
    }
}

/// Finds the case that killed the worker (`sig`) or kept it from returning (0).
fn died(prop: &Prop, env: &Env, exe: &Path, dir: &Path, journal: &Path, sig: i32) -> i32 {
    if sig != 0 {
        eprintln!("the worker was killed by signal {sig}");
    }
    if sig != 0 && !is_crash(sig) || !prop.death_is_violation {
        return 2;
    }
    consts::init(&env.repo, None);
    let jobs = (prop.jobs)(env);
    let recs = std::fs::read(journal).unwrap_or_default();
    // The last record is that of a failure being described.
    for (slot, r) in recs.chunks(REC as usize).enumerate().rev() {
        let j = u64::from_le_bytes(r[..8].try_into().unwrap());
        let case = u64::from_le_bytes(r[8..16].try_into().unwrap());
        if j == 0 {
            continue;
        }
        let j = (j - 1) as usize;
        let log = dir.join("draws");
        let mut c = Command::new(exe);
        if case < GUIDED {
            c.args([prop.id, "--case", &j.to_string(), &case.to_string()]);
        } else {
            c.args([prop.id, "--guided", &j.to_string()]).arg(guided_file(journal, slot));
        }
        let end = run_limited(c.arg(&log).stderr(std::process::Stdio::null()), case_limit());
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        let rec: Vec<u64> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let (rec, msg) = match end {
            End::Crash(sig) => {
                let msg = format!("the process died with signal {sig}");
                let file = dir.join("choices");
                let began = Instant::now();
                shrink(rec, msg.clone(), 300, &mut |cand| {
                    if began.elapsed() > Duration::from_secs(90) {
                        return None;
                    }
                    let t = cand.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                    std::fs::write(&file, t).ok()?;
                    let end = run_limited(
                        Command::new(exe)
                            .args([prop.id, "--choices", &j.to_string()])
                            .arg(&file)
                            .stderr(std::process::Stdio::null())
                            .stdout(std::process::Stdio::null()),
                        Duration::from_secs(20),
                    );
                    matches!(end, End::Crash(_)).then(|| (cand.to_vec(), msg.clone()))
                })
            }
            End::Hang => (rec, format!("does not return within {} s", case_limit().as_secs())),
            End::Code(1) => (rec, "fails; shrinking it kills the process or does not return".to_string()),
            _ => continue,
        };
        return report_death(prop, env, &jobs, (j, case), &rec, &msg, "");
    }
    // None of the running cases does so alone: those before it may matter.
    for r in recs.chunks(REC as usize).rev() {
        let j = u64::from_le_bytes(r[..8].try_into().unwrap());
        let case = u64::from_le_bytes(r[8..16].try_into().unwrap());
        if j == 0 {
            continue;
        }
        let j = (j - 1) as usize;
        let mut c = Command::new(exe);
        let last = case.min(jobs[j].cases.saturating_sub(1));
        c.args([prop.id, "--history", &j.to_string(), &last.to_string()]);
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        let msg = match run_limited(&mut c, Duration::from_secs(30)) {
            End::Crash(sig) => format!("the process dies with signal {sig} after the cases before"),
            End::Code(1) => "fails after the cases before".to_string(),
            _ => continue,
        };
        return report_death(prop, env, &jobs, (j, case), &[], &msg, &format!("history {last}"));
    }
    eprintln!("no running case reproduces the death of the worker");
    2
}

fn report_death(prop: &Prop, env: &Env, jobs: &[Job], (j, case): (usize, u64), rec: &[u64], msg: &str, how: &str) -> i32 {
    let path = write_replay(prop, env, &jobs[j].name, case, rec, msg, &[], how);
    println!("{}: {}: {msg}", prop.id, jobs[j].name);
    write_evidence(prop, env, case + 1, 1, &BTreeMap::new(), &[format!("{} case {case}: {msg}", jobs[j].name)], jobs.len(), &[], 0.0, 1, Some((0, 1)), "");
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    1
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    env: &Env,
    evals: u64,
    distinct: u64,
    labels: &BTreeMap<String, u64>,
    samples: &[String],
    jobs: usize,
    exhaustive: &[String],
    wall: f64,
    violations: usize,
    stopped: Option<(usize, usize)>,
    guided: &str,
) {
    let list = |v: &[String]| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   ");
    let mut t = String::new();
    let _ = write!(
        t,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(prop.id),
        json_str(if env.thorough { "thorough" } else { "quick" }),
        env.seed
    );
    let _ = write!(
        t,
        "  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"jobs\": {jobs},\n",
        json_str(prop.rule)
    );
    if let Some((a, b)) = stopped {
        let _ = write!(t, "  \"stopped_early\": \"{a} of {b} parts of the cases were explored\",\n");
    }
    if !guided.is_empty() {
        let _ = write!(t, "  \"guided\": {},\n", json_str(guided));
    }
    let _ = write!(t, "  \"exhaustive_jobs\": [{}],\n", list(exhaustive));
    let ls: Vec<String> = labels.iter().map(|(k, v)| format!("   {}: {v}", json_str(k))).collect();
    let _ = write!(t, "  \"classes\": {{\n{}\n  }},\n", ls.join(",\n"));
    let _ = write!(t, "  \"samples\": [\n   {}\n  ]\n }},\n", list(samples));
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let _ = write!(
        t,
        " \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {violations}\n}}\n",
        assumptions.join(", ")
    );
    let dir = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop.id));
    let mut f = File::create(&path).unwrap_or_else(|e| {
        eprintln!("{}: {e}", path.display());
        exit(2)
    });
    if let Err(e) = f.write_all(t.as_bytes()) {
        eprintln!("{}: {e}", path.display());
        exit(2);
    }
}
