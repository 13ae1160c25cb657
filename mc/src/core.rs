//! Stateless exhaustive explorer.
//!
//! A *scenario* is a closed program: it drives real tower code and obtains every nondeterministic
//! decision (operation to perform, which task runs next, what the environment answers, when time
//! passes) from [`choose`] / [`deviate`].  The explorer enumerates the complete tree of decisions,
//! re-running the scenario from scratch for every leaf.  Replaying a prefix must reproduce exactly
//! the same sequence of choice points; a divergence is a hard error of the check (exit code 2).

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
pub type Body = Arc<dyn Fn() -> LocalFut + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    /// maximal number of deviations (non-default answers at `deviate` points) per execution
    pub dev_bound: u32,
    pub body: Body,
}

impl Scenario {
    pub fn new<F, Fut>(name: impl Into<String>, dev_bound: u32, f: F) -> Self
    where
        F: Fn() -> Fut + Send + Sync + 'static,
        Fut: Future<Output = ()> + 'static,
    {
        Scenario {
            name: name.into(),
            dev_bound,
            body: Arc::new(move || Box::pin(f())),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ch {
    pub chosen: u16,
    pub n: u16,
    pub dev: bool,
}

pub struct Violation(pub String);
pub struct HarnessError(pub String);
pub struct Prune;

struct Exec {
    prefix: Vec<Ch>,
    choices: Vec<Ch>,
    devs: u32,
    dev_bound: u32,
    hash: u64,
    states: Vec<u64>,
    new_edges: u64,
    trace: Option<Vec<String>>,
}

thread_local! {
    static EXEC: RefCell<Option<Exec>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_EXEC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

struct HashWriter(u64);
impl std::fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.0 = mix(self.0, u64::from_le_bytes(a) ^ ((c.len() as u64) << 56));
        }
        Ok(())
    }
}

/// Record an observation: part of the observable history of this execution.
pub fn obs_args(a: std::fmt::Arguments<'_>) {
    EXEC.with(|e| {
        if let Ok(mut e) = e.try_borrow_mut() {
            if let Some(e) = e.as_mut() {
                let mut w = HashWriter(mix(e.hash, 0xABCD));
                let _ = w.write_fmt(a);
                e.hash = w.0;
                if let Some(t) = e.trace.as_mut() {
                    t.push(format!("{a}"));
                }
            }
        }
    })
}
#[macro_export]
macro_rules! obs { ($($t:tt)*) => { $crate::core::obs_args(format_args!($($t)*)) } }
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { $crate::core::fail_str(format!($($t)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !($c) { $crate::core::fail_str(format!($($t)*)) } } }

/// Note only shown in traces of replays; not part of the observation hash.
pub fn note_args(a: std::fmt::Arguments<'_>) {
    EXEC.with(|e| {
        if let Ok(mut e) = e.try_borrow_mut() {
            if let Some(e) = e.as_mut() {
                if let Some(t) = e.trace.as_mut() {
                    t.push(format!("  {a}"));
                }
            }
        }
    })
}
#[macro_export]
macro_rules! note { ($($t:tt)*) => { $crate::core::note_args(format_args!($($t)*)) } }

pub fn hash_now() -> u64 {
    EXEC.with(|e| e.borrow().as_ref().map(|e| e.hash).unwrap_or(0))
}

pub fn fail_str(s: String) -> ! {
    if std::thread::panicking() {
        // already unwinding (a destructor detected something); keep the first problem
        note_args(format_args!("also while unwinding: {s}"));
        std::process::abort();
    }
    std::panic::panic_any(Violation(s))
}

pub fn harness_error(s: String) -> ! {
    std::panic::panic_any(HarnessError(s))
}

/// Abandon this execution: it is a duplicate of (or equivalent to) another one.
#[allow(dead_code)]
pub fn prune() -> ! {
    std::panic::panic_any(Prune)
}

fn choose_inner(n: usize, label: &str, dev: bool) -> usize {
    assert!(n > 0 && n < u16::MAX as usize, "choose with n={n} at {label}");
    let r = EXEC.with(|e| {
        let mut b = e.borrow_mut();
        let e = match b.as_mut() {
            Some(e) => e,
            None => return Err("choose outside an execution".to_string()),
        };
        if n == 1 || (dev && e.devs >= e.dev_bound) {
            return Ok(0);
        }
        let pos = e.choices.len();
        let c = if pos < e.prefix.len() {
            let p = e.prefix[pos];
            if p.n as usize != n || p.dev != dev {
                return Err(format!(
                    "replay divergence at choice {pos} ({label}): recorded n={} dev={}, now n={n} dev={dev}",
                    p.n, p.dev
                ));
            }
            p
        } else {
            e.new_edges += 1;
            Ch { chosen: 0, n: n as u16, dev }
        };
        e.choices.push(c);
        if dev && c.chosen > 0 {
            e.devs += 1;
        }
        let h = e.hash;
        e.states.push(h);
        if let Some(t) = e.trace.as_mut() {
            t.push(format!("  ? {label}: {}/{}", c.chosen, n));
        }
        Ok(c.chosen as usize)
    });
    match r {
        Ok(v) => v,
        Err(s) => harness_error(s),
    }
}

/// Full branching decision: every one of the `n` alternatives is explored.
pub fn choose(n: usize, label: &str) -> usize {
    choose_inner(n, label, false)
}
/// Decision whose non-zero alternatives cost one deviation from the scenario's bound.
pub fn deviate(n: usize, label: &str) -> usize {
    choose_inner(n, label, true)
}
pub fn flip(label: &str) -> bool {
    choose(2, label) == 1
}

pub struct ExecResult {
    pub choices: Vec<Ch>,
    pub outcome: Outcome,
    pub hash: u64,
    pub states: Vec<u64>,
    pub new_edges: u64,
    pub trace: Option<Vec<String>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Pruned,
    Violation(String),
    Harness(String),
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inexec = IN_EXEC.with(|c| c.get());
        if inexec {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = payload_str(info.payload());
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(format!("{msg} at {loc}"));
                }
            });
        } else {
            eprintln!("{info}");
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

pub fn mk_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime")
}

pub fn run_one(rt: &mut tokio::runtime::Runtime, sc: &Scenario, prefix: Vec<Ch>, trace: bool) -> ExecResult {
    crate::env::reset();
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Exec {
            prefix,
            choices: Vec::with_capacity(64),
            devs: 0,
            dev_bound: sc.dev_bound,
            hash: 0x1234_5678,
            states: Vec::with_capacity(64),
            new_edges: 0,
            trace: if trace { Some(vec![]) } else { None },
        })
    });
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    IN_EXEC.with(|c| c.set(true));
    let body = sc.body.clone();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(tokio::task::unconstrained(async move {
            body().await;
            // let spawned tasks that were cut loose by the end of the scenario finish dropping
            crate::sched::settle().await;
        }))
    }));
    IN_EXEC.with(|c| c.set(false));
    let outcome = match r {
        Ok(()) => Outcome::Ok,
        Err(p) => {
            *rt = mk_rt();
            if let Some(v) = p.downcast_ref::<Violation>() {
                Outcome::Violation(v.0.clone())
            } else if let Some(v) = p.downcast_ref::<HarnessError>() {
                Outcome::Harness(v.0.clone())
            } else if p.is::<Prune>() {
                Outcome::Pruned
            } else {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                Outcome::Violation(format!("panic under contract-abiding use: {m}"))
            }
        }
    };
    crate::env::reset();
    let e = EXEC.with(|e| e.borrow_mut().take()).unwrap();
    let outcome = if outcome == Outcome::Ok && e.choices.len() < e.prefix.len() {
        Outcome::Harness(format!(
            "replay divergence: execution ended after {} of {} recorded choices",
            e.choices.len(),
            e.prefix.len()
        ))
    } else {
        outcome
    };
    ExecResult {
        choices: e.choices,
        outcome,
        hash: e.hash,
        states: e.states,
        new_edges: e.new_edges,
        trace: e.trace,
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub capped: bool,
    pub wall_s: f64,
}

pub struct Found {
    pub scenario: String,
    pub message: String,
    pub choices: Vec<Ch>,
    pub trace: Vec<String>,
}

struct Shared {
    queue: Mutex<Vec<Vec<Ch>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    nthreads: usize,
    deadline: Instant,
    found: Mutex<Vec<(Outcome, Vec<Ch>)>>,
    slots: Vec<Mutex<(Option<Instant>, Vec<Ch>)>>,
    tids: Vec<Mutex<String>>,
    execs: AtomicU64,
}

/// An execution that used so much processor time, or took so long, does not end. (Time on the clock
/// alone says little: the machine may be busy.)
const HANG_CPU: Duration = Duration::from_secs(40);
const HANG: Duration = Duration::from_secs(150);

thread_local! { static ME: std::cell::RefCell<Option<(Arc<Shared>, usize)>> = const { std::cell::RefCell::new(None) }; }
/// An execution that is meant to be long makes progress.
pub fn alive() {
    ME.with(|m| {
        if let Some((sh, t)) = &*m.borrow() {
            sh.slots[*t].lock().unwrap().0 = Some(Instant::now());
        }
    })
}
/// Processor time used by one of our threads.
fn cpu(tid: &str) -> Option<Duration> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    let ticks: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(Duration::from_millis(ticks * 10))
}

pub fn explore(sc: &Scenario, nthreads: usize, budget: Duration) -> (Stats, Option<Result<Found, String>>, Vec<Vec<Ch>>) {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        nthreads,
        deadline: t0 + budget,
        found: Mutex::new(vec![]),
        slots: (0..nthreads).map(|_| Mutex::new((None, vec![]))).collect(),
        tids: (0..nthreads).map(|_| Mutex::new(String::new())).collect(),
        execs: AtomicU64::new(0),
    });
    let mut handles = vec![];
    for t in 0..nthreads {
        let sh = sh.clone();
        let sc = sc.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                        *sh.tids[t].lock().unwrap() = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
                    }
                    ME.with(|m| *m.borrow_mut() = Some((sh.clone(), t)));
                    worker(t, sc, sh)
                })
                .unwrap(),
        );
    }
    // watchdog: an execution which never ends is a livelock in the code under test
    let mut hung: Option<Vec<Ch>> = None;
    let mut slow: Vec<Option<(Instant, Duration)>> = vec![None; nthreads];
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 20 }));
        for (i, s) in sh.slots.iter().enumerate() {
            let s = s.lock().unwrap();
            let Some(t) = s.0 else { continue };
            if t.elapsed() < Duration::from_secs(2) {
                continue;
            }
            let used = cpu(&sh.tids[i].lock().unwrap()).unwrap_or(t.elapsed());
            if slow[i].map(|x| x.0) != Some(t) {
                slow[i] = Some((t, used));
            }
            let since = slow[i].map_or(used, |x| x.1);
            if t.elapsed() > HANG || used.saturating_sub(since) > HANG_CPU {
                hung = Some(s.1.clone());
            }
        }
        if hung.is_some() {
            break;
        }
    }
    if let Some(h) = hung {
        let f = Found {
            scenario: sc.name.clone(),
            message: format!("execution does not terminate (no progress for {}s): livelock", HANG_CPU.as_secs()),
            choices: h,
            trace: vec![],
        };
        return (Stats { wall_s: t0.elapsed().as_secs_f64(), ..Default::default() }, Some(Ok(f)), vec![]);
    }
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut st = Stats::default();
    let mut samples = vec![];
    for h in handles {
        let r = h.join().expect("worker thread");
        if states.is_empty() { states = r.states } else { states.extend(r.states) }
        if outcomes.is_empty() { outcomes = r.outcomes } else { outcomes.extend(r.outcomes) }
        st.executions += r.execs;
        st.transitions += r.edges;
        st.max_depth = st.max_depth.max(r.max_depth);
        samples.extend(r.samples);
    }
    st.states = states.len() as u64;
    st.outcomes = outcomes.len() as u64;
    st.capped = sh.capped.load(Ordering::SeqCst);
    st.wall_s = t0.elapsed().as_secs_f64();
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    found.sort_by_key(|(o, c)| {
        (
            matches!(o, Outcome::Harness(_)),
            c.iter().filter(|x| x.dev && x.chosen > 0).count(),
            c.iter().filter(|x| x.chosen > 0).count(),
            c.len(),
        )
    });
    let res = found.into_iter().next().map(|(o, c)| match o {
        Outcome::Violation(m) => confirm(sc, m, c),
        Outcome::Harness(m) => Err(format!("{}: {m}; choices {}", sc.name, fmt_choices(&c))),
        _ => unreachable!(),
    });
    (st, res, samples)
}

fn confirm(sc: &Scenario, m: String, c: Vec<Ch>) -> Result<Found, String> {
    let sc2 = sc.clone();
    // in a fresh thread, so that no thread-local leftovers matter
    let c2 = c.clone();
    let (ok, trace, got) = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut last = vec![];
            let mut got = vec![];
            let mut hits = 0;
            for _ in 0..2 {
                let mut rt = mk_rt();
                let r = run_one(&mut rt, &sc2, c2.clone(), true);
                if let Outcome::Violation(_) = r.outcome {
                    hits += 1;
                }
                got.push(format!("{:?}", r.outcome));
                last = r.trace.unwrap_or_default();
            }
            (hits, last, got)
        })
        .unwrap()
        .join()
        .unwrap();
    if ok == 0 {
        return Err(format!("{}: violation `{m}` did not reproduce on replay: {got:?}", sc.name));
    }
    Ok(Found { scenario: sc.name.clone(), message: m, choices: c, trace })
}

pub fn fmt_choices(c: &[Ch]) -> String {
    c.iter().map(|x| format!("{}/{}{}", x.chosen, x.n, if x.dev { "d" } else { "" })).collect::<Vec<_>>().join(" ")
}

struct WorkerOut {
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    execs: u64,
    edges: u64,
    max_depth: usize,
    samples: Vec<Vec<Ch>>,
}

const STATE_CAP: usize = 24_000_000;

fn worker(t: usize, sc: Scenario, sh: Arc<Shared>) -> WorkerOut {
    let mut rt = mk_rt();
    let mut local: Vec<Vec<Ch>> = vec![];
    let mut out = WorkerOut {
        states: HashSet::new(),
        outcomes: HashSet::new(),
        execs: 0,
        edges: 0,
        max_depth: 0,
        samples: vec![],
    };
    'outer: loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, Ordering::SeqCst);
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break 'outer;
                    }
                    if let Some(i) = q.pop() {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                        break i;
                    }
                    if sh.idle.load(Ordering::SeqCst) == sh.nthreads {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                        break 'outer;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                }
            }
        };
        let start = item.len();
        {
            let mut s = sh.slots[t].lock().unwrap();
            s.0 = Some(Instant::now());
            s.1.clear();
            s.1.extend_from_slice(&item);
        }
        let r = run_one(&mut rt, &sc, item, false);
        sh.slots[t].lock().unwrap().0 = None;
        out.execs += 1;
        out.edges += r.new_edges + (start > 0) as u64;
        out.max_depth = out.max_depth.max(r.choices.len());
        if out.states.len() < STATE_CAP / sh.nthreads {
            out.states.extend(r.states.iter().copied());
        }
        let novel = out.outcomes.len() < STATE_CAP / sh.nthreads && out.outcomes.insert(r.hash);
        if novel && out.samples.len() < 2 && out.execs % 7 == 1 {
            out.samples.push(r.choices.clone());
        }
        match r.outcome {
            Outcome::Ok | Outcome::Pruned => {}
            o => {
                sh.found.lock().unwrap().push((o, r.choices));
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
        }
        let mut devs_before: u32 = 0;
        for c in &r.choices[..start] {
            if c.dev && c.chosen > 0 {
                devs_before += 1;
            }
        }
        // all choices after `start` took the default, hence add no deviation
        if devs_before <= sc.dev_bound {
            for i in start..r.choices.len() {
                let c = r.choices[i];
                if c.dev && devs_before >= sc.dev_bound {
                    continue;
                }
                for alt in (1..c.n).rev() {
                    let mut p = Vec::with_capacity(i + 1);
                    p.extend_from_slice(&r.choices[..i]);
                    p.push(Ch { chosen: alt, ..c });
                    local.push(p);
                }
            }
        }
        if sh.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            let k = (local.len() / 2).clamp(1, 64);
            q.extend(local.drain(..k));
            sh.cv.notify_all();
        }
        if out.execs % 64 == 0 {
            sh.execs.fetch_add(64, Ordering::Relaxed);
            if Instant::now() > sh.deadline {
                sh.capped.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
        }
    }
    out
}
