//! Stateless model checker: enumerates every sequence of answers the environment of the code under test can
//! give, re-executing the job from the start for each. `choose` branches freely; `dev` branches at a cost of one
//! deviation (any answer but the first), and the number of deviations per execution is bounded.
use crate::sysx;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Point {
    n: u32,
    chosen: u32,
    /// exclusive upper bound of `chosen` for this worker (the rest was donated to others)
    limit: u32,
}

pub struct Ctx<'a> {
    script: Vec<Point>,
    pos: usize,
    used: u32,
    bound: u32,
    shared: &'a Shared,
    pub replaying: bool,
    job: usize,
    local: Local,
}

/// Distinct states are remembered up to this number, only to count them; beyond it the count is a lower bound.
/// (The exploration itself is stateless and not cut by it.)
const MAX_STATES: usize = 40_000_000;

#[derive(Default)]
struct Local {
    execs: u64,
    edges: u64,
    cases: u64,
    traces: u64,
    outcomes: BTreeMap<&'static str, u64>,
    distinct_by_construction: u64,
}

pub struct Violation {
    pub job: String,
    pub choices: Vec<u32>,
    pub detail: String,
}

struct Shared {
    states: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    sample_jobs: Mutex<HashSet<usize>>,
    violations: Mutex<Vec<Violation>>,
    findings: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    queue: Mutex<VecDeque<(usize, Vec<u32>)>>,
    cv: Condvar,
    active: AtomicUsize,
    hungry: AtomicUsize,
    engine_error: Mutex<Option<String>>,
    total: Mutex<Local>,
    names: Vec<String>,
    slots: sysx::Slots,
    cap: u64,
}

pub struct Job<'j> {
    pub name: String,
    pub bound: u32,
    pub f: Box<dyn Fn(&mut Ctx) + Sync + Send + 'j>,
}
impl<'j> Job<'j> {
    pub fn new(name: impl Into<String>, bound: u32, f: impl Fn(&mut Ctx) + Sync + Send + 'j) -> Self {
        Job { name: name.into(), bound, f: Box::new(f) }
    }
}

pub struct Report {
    pub execs: u64,
    pub transitions: u64,
    pub states: u64,
    pub cases: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    /// failures identified by a key; the driver decides whether the key is a listed finding
    pub findings: BTreeMap<String, String>,
    pub engine_error: Option<String>,
    pub jobs: usize,
    pub wall: f64,
}

/// Raised (as a panic payload) when a violation was recorded, to leave the execution.
pub struct Abandon;

impl<'a> Ctx<'a> {
    fn point(&mut self, n: u32) -> u32 {
        assert!(n >= 1, "empty choice");
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.script.len() {
            let p = &mut self.script[self.pos];
            if p.n == 0 {
                // a donated or replayed prefix knows the choice but not yet the width
                p.n = n;
                p.limit = p.chosen + 1;
            }
            assert!(p.n == n, "ENGINE: divergence while replaying a prefix (width {} then {})", p.n, n);
            assert!(p.chosen < n, "ENGINE: replayed choice out of range");
            p.chosen
        } else {
            self.script.push(Point { n, chosen: 0, limit: n });
            0
        };
        self.pos += 1;
        c
    }
    /// Free choice among n answers.
    pub fn choose(&mut self, n: usize) -> usize {
        self.point(n as u32) as usize
    }
    /// Choice where every answer but the first costs one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if n <= 1 || self.used >= self.bound {
            return 0;
        }
        let c = self.point(n as u32);
        if c != 0 {
            self.used += 1;
        }
        c as usize
    }
    pub fn deviations(&self) -> u32 {
        self.used
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.choose(xs.len())]
    }
    pub fn pick_dev<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.dev(xs.len())]
    }
    /// Notes a model state reached (canonical bytes).
    pub fn state(&mut self, bytes: &[u8]) {
        let h = crate::hash(bytes) ^ (self.job as u64).wrapping_mul(0x9E3779B97F4A7C15);
        let mut s = self.shared.states[(h >> 56) as usize & 63].lock().unwrap();
        if s.len() < MAX_STATES / 64 {
            s.insert(h);
        }
    }
    /// n states that are distinct by construction (inner loops over values).
    pub fn states_n(&mut self, n: u64) {
        self.local.distinct_by_construction += n;
    }
    /// n further transitions taken inside one execution (inner loops over values).
    pub fn transitions_n(&mut self, n: u64) {
        self.local.edges += n;
    }
    /// One comparison of model and implementation.
    pub fn compared(&mut self, n: u64) {
        self.local.traces += n;
    }
    pub fn cases(&mut self, n: u64) {
        self.local.cases += n;
    }
    pub fn outcome(&mut self, what: &'static str) {
        *self.local.outcomes.entry(what).or_insert(0) += 1;
    }
    pub fn outcome_n(&mut self, what: &'static str, n: u64) {
        *self.local.outcomes.entry(what).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // one sample per job, the first 12 jobs that offer one
        let mut s = self.shared.samples.lock().unwrap();
        if s.len() < 12 && self.shared.sample_jobs.lock().unwrap().insert(self.job) {
            let mut t = f();
            if t.len() > 400 {
                t.truncate((0..=400).rev().find(|i| t.is_char_boundary(*i)).unwrap());
                t.push_str("..");
            }
            s.push(format!("{}: {}", self.shared.names[self.job], t));
        }
    }
    /// Records a violation and leaves this execution.
    pub fn fail(&mut self, detail: impl Into<String>) -> ! {
        let v = Violation {
            job: self.shared.names[self.job].clone(),
            choices: self.script[..self.pos].iter().map(|p| p.chosen).collect(),
            detail: detail.into(),
        };
        self.shared.violations.lock().unwrap().push(v);
        self.shared.stop.store(true, SeqCst);
        std::panic::panic_any(Abandon)
    }
    /// Records a failure that may be a listed finding, identified by its key, and goes on.
    pub fn finding(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.shared.findings.lock().unwrap().entry(key.into()).or_insert_with(|| detail.into());
    }
    pub fn check(&mut self, ok: bool, detail: impl FnOnce() -> String) {
        if !ok {
            self.fail(detail())
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Abandon>() {
                std::panic::resume_unwind(e)
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

impl Shared {
    fn worker(&self, jobs: &[Job], slot: usize) {
        loop {
            let (job, prefix) = {
                let mut q = self.queue.lock().unwrap();
                loop {
                    if self.stop.load(SeqCst) {
                        return;
                    }
                    if let Some(t) = q.pop_front() {
                        self.active.fetch_add(1, SeqCst);
                        break t;
                    }
                    if self.active.load(SeqCst) == 0 {
                        self.cv.notify_all();
                        return;
                    }
                    self.hungry.fetch_add(1, SeqCst);
                    q = self.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                    self.hungry.fetch_sub(1, SeqCst);
                }
            };
            self.dfs(jobs, job, prefix, slot);
            let _q = self.queue.lock().unwrap();
            self.active.fetch_sub(1, SeqCst);
            self.cv.notify_all();
        }
    }

    fn dfs(&self, jobs: &[Job], job: usize, prefix: Vec<u32>, slot: usize) {
        let fixed = prefix.len();
        let mut ctx = Ctx {
            script: prefix.iter().map(|&c| Point { n: 0, chosen: c, limit: c + 1 }).collect(),
            pos: 0,
            used: 0,
            bound: jobs[job].bound,
            shared: self,
            replaying: false,
            job,
            local: Local::default(),
        };
        let mut fresh_from = fixed; // edges from this index on are new
        loop {
            ctx.pos = 0;
            ctx.used = 0;
            self.slots.begin(slot, job as u32, ctx.script.iter().map(|p| p.chosen));
            let r = catch_unwind(AssertUnwindSafe(|| (jobs[job].f)(&mut ctx)));
            self.slots.end(slot);
            ctx.local.execs += 1;
            ctx.local.edges += (ctx.pos - fresh_from.min(ctx.pos)) as u64;
            if let Err(e) = r {
                if !e.is::<Abandon>() {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    let cs: Vec<u32> = ctx.script.iter().map(|p| p.chosen).collect();
                    self.engine_error.lock().unwrap().get_or_insert(format!("{} {:?}: {m}", self.names[job], cs));
                    self.stop.store(true, SeqCst);
                }
                break;
            }
            if ctx.pos != ctx.script.len() {
                self.engine_error.lock().unwrap().get_or_insert(format!(
                    "{}: divergence, execution ended before its prefix was replayed",
                    self.names[job]
                ));
                self.stop.store(true, SeqCst);
                break;
            }
            if self.stop.load(Relaxed) {
                break;
            }
            if self.hungry.load(Relaxed) > 0 {
                self.donate(&mut ctx.script, fixed, job);
            }
            // backtrack
            let mut more = false;
            while ctx.script.len() > fixed {
                let last = ctx.script.last_mut().unwrap();
                if last.chosen + 1 < last.limit {
                    last.chosen += 1;
                    more = true;
                    break;
                }
                ctx.script.pop();
            }
            if !more {
                break;
            }
            fresh_from = ctx.script.len() - 1;
        }
        let mut t = self.total.lock().unwrap();
        t.execs += ctx.local.execs;
        t.edges += ctx.local.edges;
        t.cases += ctx.local.cases;
        t.traces += ctx.local.traces;
        t.distinct_by_construction += ctx.local.distinct_by_construction;
        for (k, v) in &ctx.local.outcomes {
            *t.outcomes.entry(k).or_insert(0) += v;
        }
        if t.execs > self.cap {
            self.engine_error.lock().unwrap().get_or_insert(format!("execution cap {} exceeded", self.cap));
            self.stop.store(true, SeqCst);
        }
    }

    fn donate(&self, script: &mut [Point], fixed: usize, job: usize) {
        for i in fixed..script.len() {
            if script[i].chosen + 1 < script[i].limit {
                let base: Vec<u32> = script[..i].iter().map(|p| p.chosen).collect();
                let (from, to) = (script[i].chosen + 1, script[i].limit);
                script[i].limit = from;
                let mut q = self.queue.lock().unwrap();
                for c in from..to {
                    let mut t = base.clone();
                    t.push(c);
                    q.push_back((job, t));
                }
                self.cv.notify_all();
                return;
            }
        }
    }
}

static DEADLINE_MS: AtomicU64 = AtomicU64::new(30_000);
/// Longest time a single execution may take before it counts as hanging.
pub fn set_hang_limit(ms: u64) {
    DEADLINE_MS.store(ms, SeqCst)
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 64)
}

pub fn run(jobs: Vec<Job>) -> Report {
    install_hook();
    let start = Instant::now();
    let n = threads();
    let shared = Shared {
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        samples: Default::default(),
        sample_jobs: Default::default(),
        violations: Default::default(),
        findings: Default::default(),
        stop: AtomicBool::new(false),
        queue: Mutex::new((0..jobs.len()).map(|i| (i, vec![])).collect()),
        cv: Condvar::new(),
        active: AtomicUsize::new(0),
        hungry: AtomicUsize::new(0),
        engine_error: Mutex::new(None),
        total: Default::default(),
        names: jobs.iter().map(|j| j.name.clone()).collect(),
        slots: sysx::Slots::new(n, &jobs.iter().map(|j| j.name.as_str()).collect::<Vec<_>>()),
        cap: 4_000_000_000,
    };
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..n)
            .map(|i| {
                let (shared, jobs) = (&shared, &jobs);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || shared.worker(jobs, i))
                    .expect("spawn")
            })
            .collect();
        s.spawn(|| {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if let Some(slot) = shared.slots.overdue(DEADLINE_MS.load(SeqCst)) {
                    if !shared.stop.load(SeqCst) {
                        println!("HANG slot={slot}");
                        std::process::exit(97);
                    }
                }
            }
        });
        for h in handles {
            if h.join().is_err() {
                shared.engine_error.lock().unwrap().get_or_insert("worker thread died".into());
            }
        }
        done.store(true, SeqCst);
    });
    let t = shared.total.into_inner().unwrap();
    let mut violations = shared.violations.into_inner().unwrap();
    violations.sort_by_key(|v| (v.choices.iter().filter(|c| **c != 0).count(), v.choices.len()));
    Report {
        execs: t.execs,
        transitions: t.edges,
        states: t.distinct_by_construction + shared.states.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>(),
        cases: t.cases,
        traces: t.traces,
        outcomes: t.outcomes.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        samples: shared.samples.into_inner().unwrap(),
        findings: shared.findings.into_inner().unwrap(),
        violations,
        engine_error: shared.engine_error.into_inner().unwrap(),
        jobs: jobs.len(),
        wall: start.elapsed().as_secs_f64(),
    }
}

/// Re-executes one recorded choice sequence. Returns the violation detail if it occurs again.
pub fn replay(jobs: Vec<Job>, name: &str, choices: &[u32]) -> Result<Option<String>, String> {
    install_hook();
    let job = jobs.iter().position(|j| j.name == name).ok_or_else(|| format!("no job named {name}"))?;
    let shared = Shared {
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        samples: Default::default(),
        sample_jobs: Default::default(),
        violations: Default::default(),
        findings: Default::default(),
        stop: AtomicBool::new(false),
        queue: Default::default(),
        cv: Condvar::new(),
        active: AtomicUsize::new(0),
        hungry: AtomicUsize::new(0),
        engine_error: Mutex::new(None),
        total: Default::default(),
        names: jobs.iter().map(|j| j.name.clone()).collect(),
        slots: sysx::Slots::none(),
        cap: u64::MAX,
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                let mut ctx = Ctx {
                    script: choices.iter().map(|&c| Point { n: 0, chosen: c, limit: c + 1 }).collect(),
                    pos: 0,
                    used: 0,
                    bound: jobs[job].bound,
                    shared: &shared,
                    replaying: true,
                    job,
                    local: Local::default(),
                };
                let r = catch_unwind(AssertUnwindSafe(|| (jobs[job].f)(&mut ctx)));
                match r {
                    Ok(()) => Ok(None),
                    Err(e) if e.is::<Abandon>() => Ok(Some(shared.violations.lock().unwrap()[0].detail.clone())),
                    Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("replay thread died".into()))
    });
    r
}
