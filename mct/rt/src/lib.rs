//! Controlled scheduler for model threads: OS threads that run one at a time; every operation on a
//! shared primitive (see the std/tokio shims) is a scheduling point. Sequentially consistent.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::future::Future;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ch {
    pub chosen: u16,
    pub n: u16,
    /// taking another than alternative 0 costs a deviation (a preemption)
    pub dev: bool,
}
pub struct Violation(pub String);
pub struct HarnessError(pub String);
struct Abort;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Blocked(usize),
    Done,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Problem {
    Violation(String),
    Harness(String),
}
struct In {
    st: Vec<St>,
    names: Vec<String>,
    pos: Vec<u64>,
    cur: Option<usize>,
    prefix: Vec<Ch>,
    choices: Vec<Ch>,
    devs: u32,
    bound: u32,
    steps: u64,
    hash: u64,
    states: Vec<u64>,
    new_edges: u64,
    trace: Option<Vec<String>>,
    problem: Option<Problem>,
    abort: bool,
    clock: u64,
}
const MAXT: usize = 6;
pub struct Exec {
    m: Mutex<In>,
    cvs: [Condvar; MAXT],
    main: Condvar,
}
thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, Option<usize>)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}
struct HashWriter(u64);
impl std::fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = mix(self.0, b as u64 + 1);
        }
        Ok(())
    }
}
fn cur() -> Option<(Arc<Exec>, Option<usize>)> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
impl Exec {
    fn lock(&self) -> MutexGuard<'_, In> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wake_everyone(&self) {
        for c in &self.cvs {
            c.notify_all();
        }
        self.main.notify_all();
    }
}
impl In {
    fn problem(&mut self, p: Problem) {
        if self.problem.is_none() {
            self.problem = Some(p);
        }
        self.abort = true;
    }
    fn choose(&mut self, n: usize, label: &str, dev: bool) -> usize {
        if n <= 1 || (dev && self.devs >= self.bound) {
            return 0;
        }
        let k = self.choices.len();
        let c = if k < self.prefix.len() {
            let p = self.prefix[k];
            if p.n as usize != n || p.dev != dev {
                self.problem(Problem::Harness(format!(
                    "replay divergence at choice {k} ({label}): recorded n={} dev={}, now n={n} dev={dev}",
                    p.n, p.dev
                )));
                return 0;
            }
            p
        } else {
            self.new_edges += 1;
            Ch { chosen: 0, n: n as u16, dev }
        };
        self.choices.push(c);
        if dev && c.chosen > 0 {
            self.devs += 1;
        }
        let mut h = self.hash;
        for (i, p) in self.pos.iter().enumerate() {
            h = mix(h, (i as u64) << 32 | p);
        }
        self.states.push(h);
        c.chosen as usize
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if cur().is_some() {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let p = info.payload();
            let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
            if let Some(m) = msg {
                LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{m} at {loc}")));
            }
        } else {
            eprintln!("{info}");
        }
    }));
}
fn problem_of(p: Box<dyn std::any::Any + Send>) -> Option<Problem> {
    if p.is::<Abort>() {
        None
    } else if let Some(v) = p.downcast_ref::<Violation>() {
        Some(Problem::Violation(v.0.clone()))
    } else if let Some(v) = p.downcast_ref::<HarnessError>() {
        Some(Problem::Harness(v.0.clone()))
    } else {
        let m = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        Some(Problem::Violation(format!("panic under contract-abiding use: {m}")))
    }
}

pub struct Report {
    pub choices: Vec<Ch>,
    pub problem: Option<Problem>,
    pub hash: u64,
    pub states: Vec<u64>,
    pub new_edges: u64,
    pub trace: Option<Vec<String>>,
}
/// Run `body` (on this thread, which is not a model thread) as one execution.
pub fn execution(prefix: Vec<Ch>, bound: u32, trace: bool, body: &dyn Fn()) -> Report {
    let ex = Arc::new(Exec {
        m: Mutex::new(In {
            st: vec![],
            names: vec![],
            pos: vec![],
            cur: None,
            prefix,
            choices: Vec::with_capacity(64),
            devs: 0,
            bound,
            steps: 0,
            hash: 77,
            states: Vec::with_capacity(64),
            new_edges: 0,
            trace: trace.then(Vec::new),
            problem: None,
            abort: false,
            clock: 0,
        }),
        cvs: Default::default(),
        main: Condvar::new(),
    });
    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), None)));
    let r = catch_unwind(AssertUnwindSafe(body));
    CUR.with(|c| *c.borrow_mut() = None);
    let mut g = ex.lock();
    if let Err(p) = r {
        if let Some(p) = problem_of(p) {
            g.problem(p);
        }
    }
    if g.problem.is_none() && g.choices.len() < g.prefix.len() {
        let s = format!("replay divergence: execution ended after {} of {} recorded choices", g.choices.len(), g.prefix.len());
        g.problem(Problem::Harness(s));
    }
    Report {
        choices: std::mem::take(&mut g.choices),
        problem: g.problem.take(),
        hash: g.hash,
        states: std::mem::take(&mut g.states),
        new_edges: g.new_edges,
        trace: g.trace.take(),
    }
}

/// Free decision.
pub fn choose(n: usize, label: &str) -> usize {
    let (ex, t) = cur().expect("inside an execution");
    let mut g = ex.lock();
    let r = g.choose(n, label, false);
    if let Some(tr) = g.trace.as_mut() {
        tr.push(format!("  ? {label}: {r}/{n}"));
    }
    if g.abort && t.is_none() {
        drop(g);
        panic_any(Abort);
    }
    r
}
pub fn obs_args(a: std::fmt::Arguments<'_>) {
    if let Some((ex, t)) = cur() {
        let mut g = ex.lock();
        let mut w = HashWriter(mix(g.hash, t.map(|t| t as u64 + 1).unwrap_or(0)));
        let _ = w.write_fmt(a);
        g.hash = w.0;
        let who = t.map(|t| g.names[t].clone()).unwrap_or_default();
        if let Some(tr) = g.trace.as_mut() {
            tr.push(format!("{who}: {a}"));
        }
    }
}
#[macro_export]
macro_rules! obs { ($($t:tt)*) => { $crate::obs_args(format_args!($($t)*)) } }
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { $crate::fail_str(format!($($t)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail_str(format!($($t)*)) } } }
pub fn fail_str(s: String) -> ! {
    if std::thread::panicking() {
        std::process::abort();
    }
    panic_any(Violation(s))
}
/// A logical clock: number of scheduling points passed so far.
pub fn now() -> u64 {
    cur().map(|(ex, _)| {
        let mut g = ex.lock();
        g.clock += 1;
        g.clock
    })
    .unwrap_or(0)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Why {
    Point,
    Yield,
    Block(usize),
    Done,
}
fn schedule(ex: &Arc<Exec>, me: usize, why: Why, label: &'static str) {
    let mut g = ex.lock();
    if g.abort {
        drop(g);
        if why != Why::Done && !std::thread::panicking() {
            panic_any(Abort);
        }
        return;
    }
    if std::thread::panicking() && why != Why::Done {
        return;
    }
    g.steps += 1;
    g.pos[me] += 1;
    if g.steps > 20_000 {
        g.problem(Problem::Violation("no end within 20000 steps: livelock".into()));
    }
    if g.trace.is_some() {
        let s = match why {
            Why::Block(_) => "waits for ",
            Why::Done => "ends",
            _ => "",
        };
        let l = format!("    {}: {s}{label}", g.names[me]);
        g.trace.as_mut().unwrap().push(l);
    }
    match why {
        Why::Block(k) => g.st[me] = St::Blocked(k),
        Why::Done => g.st[me] = St::Done,
        _ => {}
    }
    let mut en: Vec<usize> = vec![];
    if why == Why::Point {
        en.push(me);
    }
    let n = g.st.len();
    en.extend((1..n).map(|d| (me + d) % n).filter(|&i| g.st[i] == St::Run));
    if why == Why::Yield {
        en.push(me);
    }
    if en.is_empty() {
        g.cur = None;
        if !g.st.iter().all(|s| *s == St::Done) {
            let who: Vec<String> = (0..g.st.len()).filter(|&i| g.st[i] != St::Done).map(|i| g.names[i].clone()).collect();
            g.problem(Problem::Violation(format!("{} wait(s) for ever: nothing can happen any more", who.join(", "))));
        }
    } else {
        // delay bounding: anything but going on, or else the next one in turn, costs a deviation
        let c = g.choose(en.len(), label, true);
        g.cur = Some(en[c]);
    }
    if g.abort {
        ex.wake_everyone();
        drop(g);
        if why != Why::Done && !std::thread::panicking() {
            panic_any(Abort);
        }
        return;
    }
    match g.cur {
        Some(n) if n != me => ex.cvs[n].notify_all(),
        None => ex.main.notify_all(),
        _ => {}
    }
    if why != Why::Done {
        while g.cur != Some(me) && !g.abort {
            g = ex.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if g.abort {
            drop(g);
            if !std::thread::panicking() {
                panic_any(Abort);
            }
        }
    }
}
/// A scheduling point before an operation on something shared.
pub fn point(label: &'static str) {
    if let Some((ex, Some(me))) = cur() {
        schedule(&ex, me, Why::Point, label)
    }
}
/// Lets others go first.
pub fn yield_point(label: &'static str) {
    if let Some((ex, Some(me))) = cur() {
        schedule(&ex, me, Why::Yield, label)
    }
}
/// Is this a model thread of a running (not aborting) execution?
pub fn modelled() -> bool {
    match cur() {
        Some((ex, Some(_))) => !ex.lock().abort && !std::thread::panicking(),
        _ => false,
    }
}
/// Aborting: locks ignore poisoning.
pub fn aborting() -> bool {
    match cur() {
        Some((ex, _)) => ex.lock().abort,
        _ => false,
    }
}
pub fn block(key: usize, label: &'static str) {
    if let Some((ex, Some(me))) = cur() {
        schedule(&ex, me, Why::Block(key), label)
    }
}
pub fn wake_key(key: usize) {
    if let Some((ex, _)) = cur() {
        let mut g = ex.lock();
        for s in g.st.iter_mut() {
            if *s == St::Blocked(key) {
                *s = St::Run;
            }
        }
    }
}

pub type Body = Box<dyn FnOnce() + Send>;
/// Keep all threads of one explorer on one processor: handing over is then cheap.
pub fn pin(cpu: usize) {
    extern "C" {
        fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
        fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    }
    unsafe {
        let mut m = [0u64; 16];
        if sched_getaffinity(0, 128, m.as_mut_ptr()) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| m[c / 64] >> (c % 64) & 1 == 1).collect();
            if !cpus.is_empty() {
                let c = cpus[cpu % cpus.len()];
                let mut k = [0u64; 16];
                k[c / 64] = 1 << (c % 64);
                sched_setaffinity(0, 128, k.as_ptr());
            }
        }
    }
}
/// Run model threads to completion, exploring their interleavings.
pub fn threads(bodies: Vec<(&str, Body)>) {
    let (ex, t) = cur().expect("inside an execution");
    assert!(t.is_none() && bodies.len() <= MAXT);
    let n = bodies.len();
    {
        let mut g = ex.lock();
        g.st = vec![St::Run; n];
        g.pos = vec![0; n];
        g.names = bodies.iter().map(|b| b.0.to_string()).collect();
        g.cur = None;
        let c = g.choose(n, "first thread", false);
        g.cur = Some(c);
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, (_, b))| {
            let ex = ex.clone();
            std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn(move || {
                    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), Some(i))));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        {
                            let mut g = ex.lock();
                            while g.cur != Some(i) && !g.abort {
                                g = ex.cvs[i].wait(g).unwrap_or_else(|e| e.into_inner());
                            }
                            if g.abort {
                                drop(g);
                                panic_any(Abort);
                            }
                        }
                        b()
                    }));
                    if let Err(p) = r {
                        if let Some(p) = problem_of(p) {
                            ex.lock().problem(p);
                            ex.wake_everyone();
                        }
                    }
                    schedule(&ex, i, Why::Done, "");
                    CUR.with(|c| *c.borrow_mut() = None);
                })
                .expect("thread")
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let abort = ex.lock().abort;
    if abort {
        panic_any(Abort);
    }
}

struct TW {
    ex: Option<Arc<Exec>>,
    flag: AtomicBool,
}
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(true, Ordering::SeqCst);
        if let Some(ex) = &self.ex {
            let key = Arc::as_ptr(self) as *const () as usize;
            let mut g = ex.lock();
            for s in g.st.iter_mut() {
                if *s == St::Blocked(key) {
                    *s = St::Run;
                }
            }
        }
    }
}
/// A task: polls only when woken; waiting blocks the model thread.
pub struct Task {
    tw: Arc<TW>,
    waker: Waker,
}
impl Default for Task {
    fn default() -> Self {
        Task::new()
    }
}
impl Task {
    pub fn new() -> Task {
        let tw = Arc::new(TW { ex: cur().map(|c| c.0), flag: AtomicBool::new(true) });
        Task { waker: Waker::from(tw.clone()), tw }
    }
    /// Block until woken (returns at once the first time).
    pub fn wait(&self, label: &'static str) {
        while !self.tw.flag.swap(false, Ordering::SeqCst) {
            block(Arc::as_ptr(&self.tw) as *const () as usize, label);
            assert!(modelled(), "waiting outside a model thread");
        }
    }
    pub fn rearm(&self) {
        self.tw.flag.store(true, Ordering::SeqCst);
    }
    pub fn woken(&self) -> bool {
        self.tw.flag.load(Ordering::SeqCst)
    }
    pub fn poll<F: Future + ?Sized>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        f.poll(&mut Context::from_waker(&self.waker))
    }
    pub fn poll_fn<T>(&self, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        f(&mut Context::from_waker(&self.waker))
    }
}
pub fn block_on<F: Future>(label: &'static str, f: F) -> F::Output {
    let t = Task::new();
    let mut f = std::pin::pin!(f);
    loop {
        t.wait(label);
        if let Poll::Ready(x) = t.poll(f.as_mut()) {
            return x;
        }
    }
}
pub fn block_on_fn<T>(label: &'static str, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
    let t = Task::new();
    loop {
        t.wait(label);
        if let Poll::Ready(x) = t.poll_fn(&mut f) {
            return x;
        }
    }
}
