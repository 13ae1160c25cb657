//! Exhaustive explorer over thread interleavings (see mc-rt for the scheduler): every execution
//! runs the real tower code, compiled against scheduling-point shims, from scratch.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub use mc_rt::Ch;
pub type Body = Arc<dyn Fn() + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    /// maximal number of preemptions per execution
    pub dev_bound: u32,
    pub body: Body,
}
impl Scenario {
    pub fn new<F: Fn() + Send + Sync + 'static>(name: impl Into<String>, dev_bound: u32, f: F) -> Self {
        Scenario { name: name.into(), dev_bound, body: Arc::new(f) }
    }
}
pub struct ExecResult {
    pub choices: Vec<Ch>,
    pub outcome: Outcome,
    pub hash: u64,
    pub states: Vec<u64>,
    pub new_edges: u64,
    pub trace: Option<Vec<String>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}
pub fn run_one(sc: &Scenario, prefix: Vec<Ch>, trace: bool) -> ExecResult {
    let b = sc.body.clone();
    let r = mc_rt::execution(prefix, sc.dev_bound, trace, &*b);
    ExecResult {
        choices: r.choices,
        outcome: match r.problem {
            None => Outcome::Ok,
            Some(mc_rt::Problem::Violation(s)) => Outcome::Violation(s),
            Some(mc_rt::Problem::Harness(s)) => Outcome::Harness(s),
        },
        hash: r.hash,
        states: r.states,
        new_edges: r.new_edges,
        trace: r.trace,
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub capped: bool,
    pub wall_s: f64,
}

pub struct Found {
    pub scenario: String,
    pub message: String,
    pub choices: Vec<Ch>,
    pub trace: Vec<String>,
}

struct Shared {
    queue: Mutex<Vec<Vec<Ch>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    nthreads: usize,
    deadline: Instant,
    found: Mutex<Vec<(Outcome, Vec<Ch>)>>,
    slots: Vec<Mutex<(Option<Instant>, Vec<Ch>)>>,
    execs: AtomicU64,
}

const HANG: Duration = Duration::from_secs(120);

pub fn explore(sc: &Scenario, nthreads: usize, budget: Duration) -> (Stats, Option<Result<Found, String>>, Vec<Vec<Ch>>) {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        nthreads,
        deadline: t0 + budget,
        found: Mutex::new(vec![]),
        slots: (0..nthreads).map(|_| Mutex::new((None, vec![]))).collect(),
        execs: AtomicU64::new(0),
    });
    let mut handles = vec![];
    for t in 0..nthreads {
        let sh = sh.clone();
        let sc = sc.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || worker(t, sc, sh))
                .unwrap(),
        );
    }
    // watchdog: an execution which never ends is a livelock in the code under test
    let mut hung: Option<Vec<Ch>> = None;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 20 }));
        for s in &sh.slots {
            let s = s.lock().unwrap();
            if let Some(t) = s.0 {
                if t.elapsed() > HANG {
                    hung = Some(s.1.clone());
                }
            }
        }
        if hung.is_some() {
            break;
        }
    }
    if let Some(h) = hung {
        let f = Found {
            scenario: sc.name.clone(),
            message: format!("execution does not terminate (no progress for {}s): livelock", HANG.as_secs()),
            choices: h,
            trace: vec![],
        };
        return (Stats { wall_s: t0.elapsed().as_secs_f64(), ..Default::default() }, Some(Ok(f)), vec![]);
    }
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut st = Stats::default();
    let mut samples = vec![];
    for h in handles {
        let r = h.join().expect("worker thread");
        if states.is_empty() { states = r.states } else { states.extend(r.states) }
        if outcomes.is_empty() { outcomes = r.outcomes } else { outcomes.extend(r.outcomes) }
        st.executions += r.execs;
        st.transitions += r.edges;
        st.max_depth = st.max_depth.max(r.max_depth);
        samples.extend(r.samples);
    }
    st.states = states.len() as u64;
    st.outcomes = outcomes.len() as u64;
    st.capped = sh.capped.load(Ordering::SeqCst);
    st.wall_s = t0.elapsed().as_secs_f64();
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    found.sort_by_key(|(o, c)| {
        (
            matches!(o, Outcome::Harness(_)),
            c.iter().filter(|x| x.dev && x.chosen > 0).count(),
            c.iter().filter(|x| x.chosen > 0).count(),
            c.len(),
        )
    });
    let res = found.into_iter().next().map(|(o, c)| match o {
        Outcome::Violation(m) => confirm(sc, m, c),
        Outcome::Harness(m) => Err(format!("{}: {m}; choices {}", sc.name, fmt_choices(&c))),
        _ => unreachable!(),
    });
    (st, res, samples)
}

fn confirm(sc: &Scenario, m: String, c: Vec<Ch>) -> Result<Found, String> {
    let sc2 = sc.clone();
    // in a fresh thread, so that no thread-local leftovers matter
    let c2 = c.clone();
    let (ok, trace, got) = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut last = vec![];
            let mut got = vec![];
            let mut hits = 0;
            for _ in 0..2 {
                let r = run_one(&sc2, c2.clone(), true);
                if let Outcome::Violation(_) = r.outcome {
                    hits += 1;
                }
                got.push(format!("{:?}", r.outcome));
                last = r.trace.unwrap_or_default();
            }
            (hits, last, got)
        })
        .unwrap()
        .join()
        .unwrap();
    if ok == 0 {
        return Err(format!("{}: violation `{m}` did not reproduce on replay: {got:?}", sc.name));
    }
    Ok(Found { scenario: sc.name.clone(), message: m, choices: c, trace })
}

pub fn fmt_choices(c: &[Ch]) -> String {
    c.iter().map(|x| format!("{}/{}{}", x.chosen, x.n, if x.dev { "d" } else { "" })).collect::<Vec<_>>().join(" ")
}

struct WorkerOut {
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    execs: u64,
    edges: u64,
    max_depth: usize,
    samples: Vec<Vec<Ch>>,
}

const STATE_CAP: usize = 24_000_000;

fn worker(t: usize, sc: Scenario, sh: Arc<Shared>) -> WorkerOut {
    mc_rt::pin(t);
    let mut local: Vec<Vec<Ch>> = vec![];
    let mut out = WorkerOut {
        states: HashSet::new(),
        outcomes: HashSet::new(),
        execs: 0,
        edges: 0,
        max_depth: 0,
        samples: vec![],
    };
    'outer: loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, Ordering::SeqCst);
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break 'outer;
                    }
                    if let Some(i) = q.pop() {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                        break i;
                    }
                    if sh.idle.load(Ordering::SeqCst) == sh.nthreads {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                        break 'outer;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                }
            }
        };
        let start = item.len();
        {
            let mut s = sh.slots[t].lock().unwrap();
            s.0 = Some(Instant::now());
            s.1.clear();
            s.1.extend_from_slice(&item);
        }
        let r = run_one(&sc, item, false);
        sh.slots[t].lock().unwrap().0 = None;
        out.execs += 1;
        out.edges += r.new_edges + (start > 0) as u64;
        out.max_depth = out.max_depth.max(r.choices.len());
        if out.states.len() < STATE_CAP / sh.nthreads {
            out.states.extend(r.states.iter().copied());
        }
        let novel = out.outcomes.len() < STATE_CAP / sh.nthreads && out.outcomes.insert(r.hash);
        if novel && out.samples.len() < 2 && out.execs % 7 == 1 {
            out.samples.push(r.choices.clone());
        }
        match r.outcome {
            Outcome::Ok => {}
            o => {
                sh.found.lock().unwrap().push((o, r.choices));
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
        }
        let mut devs_before: u32 = 0;
        for c in &r.choices[..start] {
            if c.dev && c.chosen > 0 {
                devs_before += 1;
            }
        }
        // all choices after `start` took the default, hence add no deviation
        if devs_before <= sc.dev_bound {
            for i in start..r.choices.len() {
                let c = r.choices[i];
                if c.dev && devs_before >= sc.dev_bound {
                    continue;
                }
                for alt in (1..c.n).rev() {
                    let mut p = Vec::with_capacity(i + 1);
                    p.extend_from_slice(&r.choices[..i]);
                    p.push(Ch { chosen: alt, ..c });
                    local.push(p);
                }
            }
        }
        if sh.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            let k = (local.len() / 2).clamp(1, 64);
            q.extend(local.drain(..k));
            sh.cv.notify_all();
        }
        if out.execs % 64 == 0 {
            sh.execs.fetch_add(64, Ordering::Relaxed);
            if Instant::now() > sh.deadline {
                sh.capped.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
        }
    }
    out
}
