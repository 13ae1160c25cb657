//! Every middleware and every ordered pair of stacked middlewares:
//! readiness discipline (C01) and wakeups (C02).
use crate::core::{choose, deviate, hash_now, Scenario};
use crate::drive::{classify, Er, Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvSvc, Gate, Rsp, O, R};
use crate::sched::{advance, settle, Flag, Sched, Step};
use crate::{check, fail, obs, Prop, Tier};
use futures_core::Stream;
use std::cell::RefCell;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::balance::p2c::Balance;
use tower::buffer::{Buffer, BufferLayer};
use tower::discover::ServiceList;
use tower::filter::{AsyncFilter, AsyncPredicate, Filter};
use tower::hedge::Hedge;
use tower::limit::{ConcurrencyLimit, GlobalConcurrencyLimitLayer, RateLimit};
use tower::load::{CompleteOnResponse, Constant, PeakEwma, PendingRequests};
use tower::load_shed::LoadShed;
use tower::ready_cache::ReadyCache;
use tower::reconnect::Reconnect;
use tower::retry::{Policy, Retry};
use tower::spawn_ready::SpawnReady;
use tower::steer::Steer;
use tower::timeout::Timeout;
use tower::util::rng::Rng;
use tower::util::{BoxCloneService, BoxCloneSyncService, BoxService, CallAllUnordered, Either, Optional};
use tower::{BoxError, Layer, Service, ServiceExt};

pub const C01: Prop = Prop {
    id: "C01",
    scenarios: c01,
    assumptions: &[
        "the caller polls until ready and then calls once; a handle whose readiness failed is dropped",
        "stacks of at most three middlewares over clonable services",
    ],
};
pub const C30: Prop = Prop {
    id: "C30",
    scenarios: c30,
    assumptions: &[
        "a buffer's worker which waits for the readiness of its service notices the end of its clients once that readiness is answered",
        "stacks of at most three middlewares over clonable services",
    ],
};
pub const C31: Prop = Prop {
    id: "C31",
    scenarios: c31,
    assumptions: &[
        "the caller polls until ready and then calls once; a handle whose readiness failed is dropped",
        "policies, predicates and continuations which leave requests and responses as they are",
        "stacks of at most three middlewares over clonable services",
    ],
};
pub const C33: Prop = Prop {
    id: "C33",
    scenarios: c33,
    assumptions: &[
        "whatever polls the code that panics is dropped afterwards, as an executor does with a task that panicked",
        "panics occur at the start of readiness polls, calls, response polls, and of policies, predicates, pickers and mapping functions",
        "stacks of at most two middlewares over clonable services",
    ],
};
pub const C02: Prop = Prop {
    id: "C02",
    scenarios: c02,
    assumptions: &[
        "inner services which eventually answer; errors are bounded by the deviation bound",
        "tasks run one at a time (thread interleavings inside tokio's primitives are trusted)",
    ],
};

// ------------------------------------------------------------------------------- uniform services

pub type XF = Pin<Box<dyn Future<Output = Result<Rsp, BoxError>> + Send>>;
pub trait Obj: Send + Sync {
    fn pr(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>>;
    fn cl(&mut self, r: u32) -> XF;
    fn dup(&self) -> Option<X>;
}
pub struct X(Box<dyn Obj>, bool);
impl Clone for X {
    fn clone(&self) -> X {
        self.0.dup().expect("clonable")
    }
}
impl std::fmt::Debug for X {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("X")
    }
}
impl Service<u32> for X {
    type Response = Rsp;
    type Error = BoxError;
    type Future = XF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.pr(cx)
    }
    fn call(&mut self, r: u32) -> XF {
        self.0.cl(r)
    }
}
impl tower::load::Load for X {
    type Metric = u32;
    fn load(&self) -> u32 {
        1
    }
}
/// Executions are single-threaded: asserting Send/Sync for our wrappers is fine.
struct Ass<T>(T);
unsafe impl<T> Send for Ass<T> {}
unsafe impl<T> Sync for Ass<T> {}
impl<F: Future> Future for Ass<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
struct Cl<S>(Ass<S>, bool);
struct Nc<S>(Ass<S>);
impl<S> Obj for Cl<S>
where
    S: Service<u32, Response = Rsp> + Clone + 'static,
    S::Error: Into<BoxError>,
    S::Future: 'static,
{
    fn pr(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0 .0.poll_ready(cx).map_err(Into::into)
    }
    fn cl(&mut self, r: u32) -> XF {
        let f = self.0 .0.call(r);
        Box::pin(Ass(async move { f.await.map_err(Into::into) }))
    }
    fn dup(&self) -> Option<X> {
        self.1.then(|| c(self.0 .0.clone(), true))
    }
}
impl<S> Obj for Nc<S>
where
    S: Service<u32, Response = Rsp> + 'static,
    S::Error: Into<BoxError>,
    S::Future: 'static,
{
    fn pr(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0 .0.poll_ready(cx).map_err(Into::into)
    }
    fn cl(&mut self, r: u32) -> XF {
        let f = self.0 .0.call(r);
        Box::pin(Ass(async move { f.await.map_err(Into::into) }))
    }
    fn dup(&self) -> Option<X> {
        None
    }
}
/// clonable if `yes` (that is: if what it wraps is)
fn c<S>(s: S, yes: bool) -> X
where
    S: Service<u32, Response = Rsp> + Clone + 'static,
    S::Error: Into<BoxError>,
    S::Future: 'static,
{
    X(Box::new(Cl(Ass(s), yes)), yes)
}
fn n<S>(s: S) -> X
where
    S: Service<u32, Response = Rsp> + 'static,
    S::Error: Into<BoxError>,
    S::Future: 'static,
{
    X(Box::new(Nc(Ass(s))), false)
}

/// Makes instances of the service below.
type Fac = Arc<dyn Fn() -> X>;

// ------------------------------------------------------------------------------- policies and such

/// Retries once after an error, possibly after waiting.
#[derive(Clone, Debug)]
struct Pol(u32);
impl Policy<u32, Rsp, BoxError> for Pol {
    type Future = Gate;
    fn retry(&mut self, _: &mut u32, r: &mut Result<Rsp, BoxError>) -> Option<Gate> {
        env::may_panic("retry policy panics");
        if r.is_err() && self.0 > 0 {
            self.0 -= 1;
            Some(env::gate(deviate(2, "retry policy waits") == 0, 1))
        } else {
            None
        }
    }
    fn clone_request(&mut self, r: &u32) -> Option<u32> {
        env::may_panic("retry policy panics cloning");
        Some(*r)
    }
}
#[derive(Clone, Debug)]
struct HPol;
impl tower::hedge::Policy<u32> for HPol {
    fn clone_request(&self, r: &u32) -> Option<u32> {
        env::may_panic("hedge policy panics cloning");
        Some(*r)
    }
    fn can_retry(&self, _: &u32) -> bool {
        env::may_panic("hedge policy panics");
        true
    }
}
#[derive(Clone)]
struct Pred;
impl tower::filter::Predicate<u32> for Pred {
    type Request = u32;
    fn check(&mut self, r: u32) -> Result<u32, BoxError> {
        env::may_panic("predicate panics");
        if deviate(2, "predicate rejects") == 1 {
            Err("rejected".into())
        } else {
            Ok(r)
        }
    }
}
#[derive(Clone)]
struct APred;
impl AsyncPredicate<u32> for APred {
    type Request = u32;
    type Future = Pin<Box<dyn Future<Output = Result<u32, BoxError>> + Send>>;
    fn check(&mut self, r: u32) -> Self::Future {
        env::may_panic("predicate panics");
        let g = env::gate(deviate(2, "predicate waits") == 0, 2);
        Box::pin(async move {
            g.await;
            env::may_panic("predicate panics later");
            if deviate(2, "predicate rejects") == 1 {
                Err("rejected".into())
            } else {
                Ok(r)
            }
        })
    }
}
struct Rot(u64);
impl Rng for Rot {
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}
/// Connects at once or later, and may fail.
struct Mk(Fac);
impl Service<u32> for Mk {
    type Response = X;
    type Error = BoxError;
    type Future = Pin<Box<dyn Future<Output = Result<X, BoxError>>>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Self::Future {
        env::may_panic("maker panics");
        let g = env::gate(deviate(2, "connecting takes time") == 0, 3);
        let f = self.0.clone();
        Box::pin(async move {
            g.await;
            env::may_panic("connecting panics");
            if deviate(2, "connecting fails") == 1 {
                Err("no connection".into())
            } else {
                Ok(f())
            }
        })
    }
}
/// A ready cache used as a service.
struct Cache {
    c: ReadyCache<u32, X, u32>,
    next: u32,
    keys: Vec<u32>,
    ready: Option<u32>,
}
impl Cache {
    fn new(f: &Fac) -> Self {
        let mut c = ReadyCache::default();
        for k in 0..2 {
            c.push(k, f());
        }
        Cache { c, next: 0, keys: vec![0, 1], ready: None }
    }
}
impl Service<u32> for Cache {
    type Response = Rsp;
    type Error = BoxError;
    type Future = XF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        loop {
            let p = self.c.poll_pending(cx);
            if let Poll::Ready(Err(tower::ready_cache::error::Failed(k, _))) = p {
                self.keys.retain(|x| *x != k);
                if self.keys.is_empty() {
                    return Poll::Ready(Err("all failed".into()));
                }
                continue;
            }
            for i in 0..self.keys.len() {
                let k = self.keys[(self.next as usize + i) % self.keys.len()];
                match self.c.check_ready(cx, &k) {
                    Ok(true) => {
                        self.ready = Some(k);
                        return Poll::Ready(Ok(()));
                    }
                    Ok(false) => {}
                    Err(tower::ready_cache::error::Failed(k, _)) => {
                        self.keys.retain(|x| *x != k);
                        if self.keys.is_empty() {
                            return Poll::Ready(Err("all failed".into()));
                        }
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
            }
            return Poll::Pending;
        }
    }
    fn call(&mut self, r: u32) -> XF {
        self.next += 1;
        let k = self.ready.take().expect("contract");
        self.c.call_ready(&k, r)
    }
}

// ------------------------------------------------------------------------------- the middlewares

thread_local! {
    static GLIMIT: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
    /// workers that must be run as tasks
    static WORKERS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(vec![]) };
    static GLOBAL: RefCell<Option<GlobalConcurrencyLimitLayer>> = const { RefCell::new(None) };
}
fn workers() -> Vec<Pin<Box<dyn Future<Output = ()>>>> {
    WORKERS.with(|w| std::mem::take(&mut *w.borrow_mut()))
}

pub struct Mw {
    name: &'static str,
    /// needs a clonable service below
    clones: bool,
    build: fn(&Fac) -> X,
}
const fn m(name: &'static str, clones: bool, build: fn(&Fac) -> X) -> Mw {
    Mw { name, clones, build }
}
fn ms(k: u64) -> Duration {
    Duration::from_millis(k)
}
fn steer(f: &Fac) -> X {
    let (a, b) = (f(), f());
    let yes = a.1;
    c(Steer::new([a, b], |r: &u32, _: &[X]| {
            env::may_panic("picker panics");
            *r as usize % 2
        }), yes)
}
fn buffer(f: &Fac, k: usize) -> X {
    let (b, w) = Buffer::pair(f(), k);
    WORKERS.with(|v| v.borrow_mut().push(Box::pin(w)));
    c(b, true)
}
fn combinators(f: &Fac) -> X {
    let x = f();
    let yes = x.1;
    let s = x
        .map_request(|r: u32| {
            env::may_panic("mapping panics");
            r
        })
        .map_response(|r| r)
        .map_err(|e: BoxError| e)
        .map_result(|r: Result<Rsp, BoxError>| r)
        .map_future(|f: _| async move { f.await })
        .and_then(|r: Rsp| async move { Ok::<_, BoxError>(r) })
        .then(|r: Result<Rsp, BoxError>| async move {
            env::gate(deviate(2, "continuation waits") == 0, 4).await;
            env::may_panic("continuation panics");
            r
        });
    c(s, yes)
}
fn load(f: &Fac) -> X {
    n(PeakEwma::new(
        PendingRequests::new(Constant::new(f(), 1u32), CompleteOnResponse::default()),
        ms(10),
        1e9,
        CompleteOnResponse::default(),
    ))
}
fn balance(f: &Fac) -> X {
    let l: Vec<Constant<X, u32>> = vec![Constant::new(f(), 1u32), Constant::new(f(), 1u32)];
    n(Balance::from_rng(ServiceList::new::<u32>(l), Rot(0)))
}
fn global(f: &Fac) -> X {
    let l = GLOBAL.with(|g| g.borrow_mut().get_or_insert_with(|| GlobalConcurrencyLimitLayer::new(GLIMIT.with(|l| l.get()))).clone());
    let x = f();
    let yes = x.1;
    c(l.layer(x), yes)
}
fn reconnect(f: &Fac) -> X {
    // (boxed futures are Unpin)
    n(Reconnect::<Mk, u32>::new(Mk(f.clone()), 0))
}
fn future_service(f: &Fac) -> X {
    let f = f.clone();
    let g = env::gate(deviate(2, "making the service takes time") == 0, 5);
    n(tower::util::future_service(Box::pin(async move {
        g.await;
        Ok::<X, BoxError>(f())
    })))
}
macro_rules! yes {
    ($f:expr, |$x:ident| $e:expr) => {{
        let $x = $f();
        let y = $x.1;
        c($e, y)
    }};
}
pub static MWS: &[Mw] = &[
    m("load_shed", false, |f| yes!(f, |x| LoadShed::new(x))),
    m("timeout", false, |f| yes!(f, |x| Timeout::new(x, ms(50)))),
    m("concurrency(1)", false, |f| yes!(f, |x| ConcurrencyLimit::new(x, 1))),
    m("concurrency(2)", false, |f| yes!(f, |x| ConcurrencyLimit::new(x, 2))),
    m("global concurrency(1)", false, global),
    m("rate(1/100ms)", false, |f| n(RateLimit::new(f(), tower::limit::rate::Rate::new(1, ms(100))))),
    m("buffer(1)", false, |f| buffer(f, 1)),
    m("buffer(2)", false, |f| buffer(f, 2)),
    m("retry", true, |f| yes!(f, |x| Retry::new(Pol(1), x))),
    m("hedge", true, |f| n(Hedge::new_with_mock_latencies(f(), HPol, 1, 0.5, ms(100_000), &[20, 20, 20]))),
    m("filter", false, |f| yes!(f, |x| Filter::new(x, Pred))),
    m("async filter", true, |f| yes!(f, |x| AsyncFilter::new(x, APred))),
    m("steer", false, steer),
    m("balance", false, balance),
    m("ready cache", false, |f| n(Cache::new(f))),
    m("reconnect", false, reconnect),
    m("spawn_ready", false, |f| n(SpawnReady::new(f()))),
    m("boxed", false, |f| n(BoxService::new(f()))),
    m("boxed clone", true, |f| yes!(f, |x| BoxCloneService::new(x))),
    m("boxed clone sync", true, |f| yes!(f, |x| BoxCloneSyncService::new(x))),
    m("either", false, |f| yes!(f, |x| if choose(2, "side") == 0 { Either::<X, X>::Left(x) } else { Either::Right(x) })),
    m("optional", false, |f| n(Optional::new(Some(f())))),
    m("combinators", false, combinators),
    m("load", false, load),
    m("future service", false, future_service),
];
/// some of them, through their layers
fn alt(i: usize, f: &Fac) -> Option<X> {
    use tower::filter::AsyncFilterLayer;
    use tower::limit::{ConcurrencyLimitLayer, RateLimitLayer};
    use tower::{load_shed::LoadShedLayer, retry::RetryLayer, spawn_ready::SpawnReadyLayer, timeout::TimeoutLayer};
    let _ = (AsyncFilterLayer::new(APred), BufferLayer::<u32>::new(1));
    Some(match MWS[i].name {
        "load_shed" => yes!(f, |x| LoadShedLayer::new().layer(x)),
        "timeout" => yes!(f, |x| TimeoutLayer::new(ms(50)).layer(x)),
        "concurrency(1)" => yes!(f, |x| ConcurrencyLimitLayer::new(1).layer(x)),
        "rate(1/100ms)" => n(RateLimitLayer::new(1, ms(100)).layer(f())),
        "retry" => yes!(f, |x| RetryLayer::new(Pol(1)).layer(x)),
        "spawn_ready" => n(SpawnReadyLayer::new().layer(f())),
        _ => return None,
    })
}

fn base(cfg: Cfg) -> Fac {
    Arc::new(move || c(env::svc(cfg), true))
}
/// Builds the stack, outermost first; None if it cannot be built (something needs a clone of
/// something that cannot be cloned).
fn build(stack: &[usize], cfg: Cfg) -> Option<X> {
    GLOBAL.with(|g| *g.borrow_mut() = None);
    WORKERS.with(|g| g.borrow_mut().clear());
    // several instances sharing one limit of 1 would wait for each other by configuration
    let several = stack.iter().filter(|&&i| MWS[i].name.starts_with("global")).count() > 1
        || stack.iter().any(|&i| matches!(MWS[i].name, "steer" | "balance" | "ready cache"));
    GLIMIT.with(|l| l.set(if several { 32 } else { 1 }));
    let mut f = base(cfg);
    for (k, &i) in stack.iter().enumerate().rev() {
        if MWS[i].clones && k + 1 < stack.len() && !clonable(&stack[k + 1..]) {
            return None;
        }
        let below = f;
        f = Arc::new(move || (MWS[i].build)(&below));
    }
    Some(f())
}
const CLONABLE: &[&str] = &["load_shed", "timeout", "concurrency(1)", "concurrency(2)", "global concurrency(1)", "retry", "filter", "async filter", "steer", "boxed clone", "boxed clone sync", "either", "combinators"];
fn clonable(stack: &[usize]) -> bool {
    match stack.first() {
        None => true,
        Some(&i) if MWS[i].name.starts_with("buffer") => true,
        Some(&i) => CLONABLE.contains(&MWS[i].name) && clonable(&stack[1..]),
    }
}

// ------------------------------------------------------------------------------------------ C01

/// readiness branches freely
const RDY: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Ok], fin: &[O::Ok], ..env::ALWAYS };
/// outcomes of all kinds, as deviations
const OUT: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Err, O::Pend], fin: &[O::Ok, O::Err], dev: true, ..env::ALWAYS };
/// pending first
const LAZ: Cfg = Cfg { ready: &[R::Pend, R::Ready, R::Err], call: &[O::Pend, O::Ok, O::Err], ..OUT };

fn c01(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(
            vec![("readiness", RDY, 7usize, 0u32), ("outcomes", OUT, 7, 2), ("slow", LAZ, 7, 1)],
            vec![("readiness", RDY, 10, 1), ("outcomes", OUT, 10, 3), ("slow", LAZ, 10, 2)],
        ) {
            v.push(Scenario::new(format!("{} {cn} depth={depth}", MWS[i].name), dev, move || c01_run(vec![i], cfg, depth, 3)));
        }
    }
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(
            vec![("readiness", RDY, 6usize, 0u32), ("outcomes", OUT, 6, 1)],
            vec![("readiness", RDY, 7, 1), ("outcomes", OUT, 7, 2), ("slow", LAZ, 7, 1)],
        ) {
            v.push(Scenario::new(format!("{} over every other, {cn} depth={depth}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                c01_run(vec![i, j], cfg, depth, 2).await
            }));
        }
    }
    for i in 0..MWS.len() {
        let depth = t.pick(4, 6);
        v.push(Scenario::new(format!("{} over every pair depth={depth}", MWS[i].name), 0, move || async move {
            let j = choose(MWS.len(), "middle middleware");
            let k = choose(MWS.len(), "lowest middleware");
            obs!("{} over {} over {}", MWS[i].name, MWS[j].name, MWS[k].name);
            c01_run(vec![i, j, k], RDY, depth, 2).await
        }));
    }
    long_runs(t, Mode::Plain, &mut v);
    v
}

struct Workers(Vec<(Option<Pin<Box<dyn Future<Output = ()>>>>, Arc<Flag>, bool)>);
impl Workers {
    /// run all that were woken, until nothing changes
    async fn run(&mut self) {
        for _ in 0..50 {
            settle().await;
            for w in workers() {
                self.0.push((Some(w), Flag::new().0, true));
            }
            let mut any = false;
            for (w, flag, first) in self.0.iter_mut() {
                if let Some(f) = w {
                    if flag.take() || std::mem::take(first) {
                        any = true;
                        let wk = std::task::Waker::from(flag.clone());
                        // (a task that panics is dropped)
                        if env::guarded(|| f.as_mut().poll(&mut Context::from_waker(&wk)).is_ready()).unwrap_or(true) {
                            *w = None;
                        }
                    }
                }
            }
            if !any {
                return;
            }
        }
        fail!("the workers never come to rest");
    }
}

/// what a history is judged for, beyond what the instances and futures check themselves
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Release,
    Faithful,
    /// wrapped code may panic
    Panic,
}
async fn c01_run(stack: Vec<usize>, cfg: Cfg, depth: usize, maxh: usize) {
    history(stack, cfg, depth, maxh, Mode::Plain, false).await
}
/// Long runs: the default history serves one request after the other on two handles; everything else
/// is a deviation.
fn long_runs(t: Tier, mode: Mode, v: &mut Vec<Scenario>) {
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(if matches!(mode, Mode::Release | Mode::Panic) { vec![("prompt", OUT, 28usize, 2u32), ("slow", LAZ, 22, 2), ("prompt", OUT, 150, 1), ("slow", LAZ, 80, 1)] } else { vec![("prompt", OUT, 36, 2), ("slow", LAZ, 30, 2), ("prompt", OUT, 150, 1), ("slow", LAZ, 80, 1)] }, vec![("prompt", OUT, 60, 2), ("slow", LAZ, 60, 2), ("prompt", OUT, 400, 1), ("slow", LAZ, 24, 3)]) {
            v.push(Scenario::new(format!("{}, long run, {cn} depth={depth}", MWS[i].name), dev, move || history(vec![i], cfg, depth, 2, mode, true)));
        }
        let dev = 1;
        v.push(Scenario::new(format!("{} over every other, long run", MWS[i].name), dev, move || async move {
            let j = choose(MWS.len(), "lower middleware");
            obs!("{} over {}", MWS[i].name, MWS[j].name);
            history(vec![i, j], LAZ, 30, 2, mode, true).await
        }));
    }
}

fn c30(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(
            vec![("readiness", RDY, 6usize, 1u32), ("outcomes", OUT, 6, 2), ("slow", LAZ, 7, 2)],
            vec![("readiness", RDY, 8, 2), ("outcomes", OUT, 8, 3), ("slow", LAZ, 9, 3)],
        ) {
            v.push(Scenario::new(format!("{} {cn} depth={depth}", MWS[i].name), dev, move || history(vec![i], cfg, depth, 2, Mode::Release, false)));
        }
    }
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(
            vec![("readiness", RDY, 5usize, 1u32), ("slow", LAZ, 6, 1)],
            vec![("readiness", RDY, 7, 1), ("outcomes", OUT, 7, 2), ("slow", LAZ, 8, 2)],
        ) {
            v.push(Scenario::new(format!("{} over every other, {cn} depth={depth}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                history(vec![i, j], cfg, depth, 2, Mode::Release, false).await
            }));
        }
    }
    for i in 0..MWS.len() {
        let depth = t.pick(4, 6);
        v.push(Scenario::new(format!("{} over every pair depth={depth}", MWS[i].name), t.pick(0, 1), move || async move {
            let j = choose(MWS.len(), "middle middleware");
            let k = choose(MWS.len(), "lowest middleware");
            obs!("{} over {} over {}", MWS[i].name, MWS[j].name, MWS[k].name);
            history(vec![i, j, k], LAZ, depth, 2, Mode::Release, false).await
        }));
    }
    long_runs(t, Mode::Release, &mut v);
    v
}
fn has(stack: &[usize], n: &str) -> bool {
    stack.iter().any(|&i| MWS[i].name.contains(n))
}
/// Where an error comes from: an inner service that really failed so, or a middleware of the stack.
fn genuine(stack: &[usize], e: &BoxError, req: Option<u32>) {
    let env_err = |x: &EnvErr| {
        if x.ready {
            check!(env::w(|w| matches!(w.svcs[x.of].state, env::Rd::Failed(_))), "the readiness error of instance {} is reported, which did not fail", x.of);
        } else {
            let (q, res) = env::w(|w| (w.futs[x.of].req, w.futs[x.of].res));
            check!(req.is_some(), "readiness failed with the error of the response to request {q}");
            check!(Some(q) == req, "request {req:?} was answered with the error of request {q}");
            check!(res == Some(Err(*x)), "request {q} was answered with {x:?}, which the inner service did not say: {res:?}");
        }
    };
    match classify(e) {
        Er::Env(x) => env_err(&x),
        Er::BufSvc(x) => {
            check!(has(stack, "buffer") && x.ready, "an error {x:?} passed off as a buffer's service error");
            env_err(&x)
        }
        Er::BufClosed => check!(has(stack, "buffer"), "a buffer's error, but no buffer"),
        Er::Overloaded => check!(has(stack, "load_shed") && req.is_some(), "overload reported, but nothing sheds load here"),
        Er::Elapsed => check!(has(stack, "timeout") && req.is_some(), "a timeout reported, but there is none here"),
        Er::Other => {
            let s = e.to_string();
            let ok = match s.as_str() {
                "rejected" => has(stack, "filter") && req.is_some(),
                "no connection" => has(stack, "reconnect"),
                "all failed" => has(stack, "ready cache"),
                s if s.contains("panicked") => has(stack, "spawn_ready") && env::panicked() > 0,
                _ => has(stack, "buffer"),
            };
            check!(ok, "the error {s:?} comes from nowhere");
        }
    }
}
fn faithful_response(stack: &[usize], i: u32, o: &Result<Rsp, BoxError>) {
    match o {
        Ok(x) => {
            check!(x.req == i, "request {i} was answered with the response to request {}", x.req);
            let res = env::w(|w| w.futs[x.fut].res);
            check!(res == Some(Ok(*x)), "request {i} was answered with {x:?}, the inner service said {res:?}");
        }
        Err(e) => genuine(stack, e, Some(i)),
    }
}
/// which pass readiness on without adding anything
const THROUGH: &[&str] = &["timeout", "retry", "hedge", "filter", "async filter", "boxed", "boxed clone", "boxed clone sync", "either", "optional", "combinators", "load"];
fn faithful_readiness(stack: &[usize], r: &Poll<Result<(), BoxError>>, before: &[usize], calls: usize) {
    if let Poll::Ready(Err(e)) = r {
        genuine(stack, e, None);
    }
    if stack.iter().all(|&i| THROUGH.contains(&MWS[i].name)) {
        check!(env::n_calls() == calls, "a readiness poll made a call");
        let asked: Vec<usize> = env::w(|w| (0..w.svcs.len()).filter(|&i| w.svcs[i].polls > before.get(i).copied().unwrap_or(0)).collect());
        let [s] = asked[..] else { fail!("one readiness poll asked the inner instances {asked:?}") };
        let seen = env::w(|w| w.svcs[s].seen);
        let ok = matches!((r, seen), (Poll::Ready(Ok(())), env::Rd::Ready) | (Poll::Pending, env::Rd::Pending) | (Poll::Ready(Err(_)), env::Rd::Failed(_)));
        check!(ok, "readiness is {r:?}, the inner service said {seen:?}");
    }
}
/// No request reaches the inner services more often than the stack's retries and hedges account for,
/// and none reaches them that was not made.
fn dispatched(stack: &[usize], nreq: u32) {
    let most = 1usize << stack.iter().filter(|&&i| matches!(MWS[i].name, "retry" | "hedge")).count();
    let mut n = vec![0usize; nreq as usize];
    env::w(|w| {
        for f in &w.futs {
            check!(f.req < nreq, "request {} reached an inner service, the caller never made it", f.req);
            n[f.req as usize] += 1;
        }
    });
    for (i, k) in n.iter().enumerate() {
        check!(*k <= most, "request {i} reached the inner services {k} times");
    }
}
fn c31(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(
            vec![("outcomes", OUT, 8usize, 2u32), ("slow", LAZ, 8, 2), ("outcomes", OUT, 6, 3)],
            vec![("outcomes", OUT, 10, 3), ("slow", LAZ, 10, 3), ("outcomes", OUT, 8, 4)],
        ) {
            v.push(Scenario::new(format!("{} {cn} depth={depth}", MWS[i].name), dev, move || history(vec![i], cfg, depth, 2, Mode::Faithful, false)));
        }
    }
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(vec![("outcomes", OUT, 6usize, 1u32), ("slow", LAZ, 6, 1)], vec![("outcomes", OUT, 7, 2), ("slow", LAZ, 8, 2)]) {
            v.push(Scenario::new(format!("{} over every other, {cn} depth={depth}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                history(vec![i, j], cfg, depth, 2, Mode::Faithful, false).await
            }));
        }
    }
    for i in 0..MWS.len() {
        let depth = t.pick(4, 6);
        v.push(Scenario::new(format!("{} over every pair depth={depth}", MWS[i].name), t.pick(0, 1), move || async move {
            let j = choose(MWS.len(), "middle middleware");
            let k = choose(MWS.len(), "lowest middleware");
            obs!("{} over {} over {}", MWS[i].name, MWS[j].name, MWS[k].name);
            history(vec![i, j, k], OUT, depth, 2, Mode::Faithful, false).await
        }));
    }
    long_runs(t, Mode::Faithful, &mut v);
    v
}
fn c33(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(vec![("prompt", OUT, 6usize, 2u32), ("slow", LAZ, 6, 2)], vec![("prompt", OUT, 8, 2), ("slow", LAZ, 8, 2), ("prompt", OUT, 6, 3)]) {
            v.push(Scenario::new(format!("{} {cn} depth={depth}", MWS[i].name), dev, move || history(vec![i], cfg, depth, 2, Mode::Panic, false)));
        }
    }
    for i in 0..MWS.len() {
        for (cn, cfg, depth, dev) in t.pick(vec![("prompt", OUT, 5usize, 1u32), ("slow", LAZ, 6, 1)], vec![("prompt", OUT, 7, 1), ("slow", LAZ, 7, 2)]) {
            v.push(Scenario::new(format!("{} over every other, {cn} depth={depth}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                history(vec![i, j], cfg, depth, 2, Mode::Panic, false).await
            }));
        }
    }
    long_runs(t, Mode::Panic, &mut v);
    v
}
/// Every inner response future belongs to a request whose response future is still there.
fn owned(rs: &[Resp<XF>]) {
    env::w(|w| {
        for (i, f) in w.futs.iter().enumerate() {
            if !f.dropped && rs.get(f.req as usize).is_none_or(|r| r.fut.is_none()) {
                fail!("the inner response future {i} of request {} is kept although the caller's response future is gone", f.req);
            }
        }
    })
}
/// Nothing of what was wrapped is left.
fn nothing_left() {
    env::w(|w| {
        for (i, s) in w.svcs.iter().enumerate() {
            check!(s.dropped, "inner service instance {i} is still alive although every handle and response future is gone");
        }
        for (i, f) in w.futs.iter().enumerate() {
            check!(f.dropped, "inner response future {i} is still alive although every handle and response future is gone");
        }
        for (i, g) in w.gates.iter().enumerate() {
            check!(g.dropped, "the pending step {i} (policy, predicate, connection or continuation) is still alive although every handle and response future is gone");
        }
    })
}

async fn history(stack: Vec<usize>, cfg: Cfg, depth: usize, maxh: usize, mode: Mode, long: bool) {
    let release = mode == Mode::Release;
    let Some(x) = build(&stack, cfg) else { return };
    let mut x = x;
    if stack.len() == 1 {
        // (assigning drops the instance that is not used)
        let alts = alt(stack[0], &base(cfg));
        if alts.is_some() && choose(2, "through its layer") == 1 {
            x = alts.unwrap();
        }
    }
    let x = x;
    env::panics(mode == Mode::Panic);
    let can_clone = x.1;
    let timed = stack.iter().any(|&i| matches!(MWS[i].name, "timeout" | "rate(1/100ms)" | "hedge"));
    let mut ws = Workers(vec![]);
    let mut hs = vec![Handle::new(x)];
    let mut rs: Vec<Resp<XF>> = vec![];
    let mut nreq = 0u32;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        Clone(usize),
        Drop(usize),
        PollF(usize),
        DropF(usize),
        Env(env::Act),
        Time(u64),
    }
    for _ in 0..depth {
        ws.run().await;
        let mut ops = vec![];
        let mut rare = vec![];
        for (i, h) in hs.iter().enumerate() {
            match h.st {
                H::Idle => ops.push(Op::Poll(i)),
                H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                H::Waiting => rare.push(Op::Poll(i)),
                H::Ready => {
                    ops.push(Op::Call(i));
                    if !stack.iter().any(|&i| MWS[i].name == "reconnect") {
                        rare.push(Op::Poll(i));
                    }
                }
                _ => {}
            }
            if can_clone && h.alive() && hs.len() < maxh {
                ops.push(Op::Clone(i));
            }
            if h.alive() && (hs.len() > 1 || !rs.is_empty()) {
                rare.push(Op::Drop(i));
            }
        }
        for (i, r) in rs.iter().enumerate() {
            if r.due() {
                ops.push(Op::PollF(i));
            }
            if r.live() {
                rare.push(Op::DropF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if timed {
            if rs.iter().any(|r| r.live()) || hs.iter().any(|h| h.st == H::Waiting) {
                ops.push(Op::Time(30));
            }
            rare.push(Op::Time(100));
        }
        if ops.is_empty() {
            break;
        }
        let op = if long {
            let due = rs.iter().filter(|r| r.due()).count();
            ops.sort_by_key(|o| match o {
                Op::Clone(_) => 0,
                Op::PollF(_) if due >= 2 => 1,
                Op::Call(i) => 2 + (i + nreq as usize) % 2,
                Op::Poll(i) => 4 + (i + nreq as usize) % 2,
                Op::PollF(_) => 6,
                Op::Env(_) => 7,
                _ => 8,
            });
            ops.extend(rare);
            ops[deviate(ops.len(), "op")]
        } else {
            let d = deviate(rare.len() + 1, "rare op");
            if d > 0 {
                rare[d - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let before: Vec<usize> = env::w(|w| w.svcs.iter().map(|s| s.polls).collect());
                let calls = env::n_calls();
                let Some(r) = env::guarded(|| hs[i].poll_ready()) else {
                    hs[i].drop_svc();
                    continue;
                };
                obs!("{}", if r.is_pending() { "pending" } else { "ready" });
                if let (Mode::Panic, Poll::Ready(Err(e))) = (mode, &r) {
                    genuine(&stack, e, None);
                }
                if mode == Mode::Faithful {
                    faithful_readiness(&stack, &r, &before, calls);
                }
                if let Poll::Ready(Err(_)) = r {
                    hs[i].drop_svc();
                }
            }
            Op::Call(i) => {
                let r = env::guarded(|| hs[i].call(nreq));
                nreq += 1;
                match r {
                    Some(r) => rs.push(r),
                    None => {
                        hs[i].drop_svc();
                        rs.push(Resp::gone());
                    }
                }
            }
            Op::Clone(i) => {
                let h = hs[i].dup();
                hs.push(h);
            }
            Op::Drop(i) => hs[i].drop_svc(),
            Op::PollF(i) => {
                if env::guarded(|| rs[i].poll()).is_none() {
                    rs[i].drop_fut();
                }
                if let (Mode::Faithful | Mode::Panic, Some(o)) = (mode, &rs[i].out) {
                    obs!("  -> {}", if o.is_ok() { "response" } else { "error" });
                    faithful_response(&stack, i as u32, o);
                }
            }
            Op::DropF(i) => rs[i].drop_fut(),
            Op::Env(a) => env::act(a),
            Op::Time(k) => advance(k).await,
        }
        if mode == Mode::Faithful {
            dispatched(&stack, nreq);
        }
        if release || mode == Mode::Panic {
            ws.run().await;
            owned(&rs);
        }
    }
    // the instances and futures check themselves
    ws.run().await;
    if mode == Mode::Panic {
        if env::panicked() == 0 {
            return;
        }
        env::panics(false);
        others_go_on(&stack, &mut hs, &mut rs, &mut ws, nreq).await;
    }
    if release || mode == Mode::Panic {
        // callers go away, in either order
        if choose(2, "handles go first") == 0 {
            hs.clear();
            ws.run().await;
            owned(&rs);
            rs.clear();
        } else {
            for r in rs.iter_mut() {
                r.drop_fut();
            }
            ws.run().await;
            owned(&rs);
            hs.clear();
        }
        GLOBAL.with(|g| *g.borrow_mut() = None);
        ws.run().await;
        if stack.iter().any(|&i| MWS[i].name.starts_with("buffer")) {
            // its worker may be waiting for readiness: let that be answered
            for _ in 0..20 {
                if ws.0.iter().all(|w| w.0.is_none()) {
                    break;
                }
                match env::acts().into_iter().find(|a| !matches!(a, env::Act::Complete(_))) {
                    Some(a) => env::act(a),
                    None => advance(100).await,
                }
                ws.run().await;
            }
        }
        check!(ws.0.iter().all(|w| w.0.is_none()), "a buffer worker still runs although every handle is gone");
        nothing_left();
    }
}

/// After a panic: everything that was not part of the panicking task is served.
async fn others_go_on(stack: &[usize], hs: &mut [Handle<X>], rs: &mut [Resp<XF>], ws: &mut Workers, nreq: u32) {
    // one handle stays
    let keep = hs.iter().position(|h| h.alive());
    for (i, h) in hs.iter_mut().enumerate() {
        if h.alive() && Some(i) != keep {
            h.drop_svc();
        }
    }
    let mut extra: Vec<Resp<XF>> = vec![];
    let mut idle = 0;
    for _ in 0..400 {
        ws.run().await;
        let mut any = false;
        for (i, r) in rs.iter_mut().enumerate() {
            if r.due() {
                any = true;
                r.poll();
                if let Some(o) = &r.out {
                    faithful_response(stack, i as u32, o);
                }
            }
        }
        for (k, r) in extra.iter_mut().enumerate() {
            if r.due() {
                any = true;
                r.poll();
                if let Some(o) = &r.out {
                    faithful_response(stack, nreq + k as u32, o);
                }
            }
        }
        if let Some(i) = keep {
            let h = &mut hs[i];
            match h.st {
                H::Ready if extra.len() < 3 => {
                    any = true;
                    extra.push(h.call(nreq + extra.len() as u32));
                }
                H::Idle if extra.len() < 3 => {
                    any = true;
                    let r = h.poll_ready();
                    if let Poll::Ready(Err(e)) = r {
                        genuine(stack, &e, None);
                        h.drop_svc();
                    }
                }
                H::Waiting if h.flag.is() => {
                    any = true;
                    let r = h.poll_ready();
                    if let Poll::Ready(Err(e)) = r {
                        genuine(stack, &e, None);
                        h.drop_svc();
                    }
                }
                _ => {}
            }
        }
        if any {
            idle = 0;
            continue;
        }
        // what the environment owes
        let acts = env::acts();
        if !acts.is_empty() {
            for a in acts {
                match a {
                    env::Act::Wake(i) => env::wake_svc(i, R::Ready),
                    env::Act::Complete(i) => env::complete(i, true),
                    env::Act::Open(i) => env::open(i),
                }
            }
            continue;
        }
        idle += 1;
        if idle > 3 {
            break;
        }
        advance(100).await;
    }
    for (i, r) in rs.iter().enumerate() {
        check!(!r.live(), "request {i} never ends after something else panicked");
    }
    for (i, r) in extra.iter().enumerate() {
        check!(!r.live(), "request {} made after the panic never ends", nreq + i as u32);
    }
    if let Some(i) = keep {
        let st = hs[i].st;
        check!(st == H::Gone || extra.len() == 3, "a handle waits for ever after something else panicked ({st:?})");
    }
}

// ------------------------------------------------------------------------------------------ C02

/// Polls `f`, possibly from another task first.
struct Foreign<F>(Pin<Box<F>>);
impl<F: Future> Future for Foreign<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        if deviate(2, "also polled from another task before") == 1 {
            let (_f, w) = Flag::new();
            if let Poll::Ready(x) = self.0.as_mut().poll(&mut Context::from_waker(&w)) {
                return Poll::Ready(x);
            }
        }
        self.0.as_mut().poll(cx)
    }
}
fn foreign<F: Future>(f: F) -> Foreign<F> {
    Foreign(Box::pin(f))
}
struct Reqs(u32, u32);
impl Stream for Reqs {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
        if self.0 == self.1 {
            return Poll::Ready(None);
        }
        self.0 += 1;
        Poll::Ready(Some(self.0 - 1))
    }
}

/// What a client does with its handle.
async fn client(kind: usize, mut x: X, first: u32, n: u32) {
    match kind {
        // poll until ready, call, wait
        0 => {
            for k in 0..n {
                let r = foreign(poll_fn(|cx| x.poll_ready(cx))).await;
                if r.is_err() {
                    obs!("client {first}: readiness failed");
                    return;
                }
                let r = foreign(x.call(first + k)).await;
                obs!("client {first}: response {}", r.is_ok());
            }
        }
        // the same through the utilities
        1 => {
            if n > 1 {
                match foreign(x.ready()).await {
                    Ok(s) => {
                        let f = s.call(first);
                        let r = foreign(f).await;
                        obs!("client {first}: response {}", r.is_ok());
                    }
                    Err(_) => return,
                }
            }
            let r = foreign(x.oneshot(first + 1)).await;
            obs!("client {first}: response {}", r.is_ok());
        }
        2 => {
            let mut s = Box::pin(x.call_all(Reqs(first, first + n)));
            while let Some(r) = foreign(poll_fn(|cx| s.as_mut().poll_next(cx))).await {
                obs!("client {first}: response {}", r.is_ok());
            }
        }
        // all requests dispatched before any response is awaited
        3 => {
            let mut fs = vec![];
            for k in 0..n {
                if foreign(poll_fn(|cx| x.poll_ready(cx))).await.is_err() {
                    break;
                }
                fs.push(x.call(first + k));
                if limited() {
                    // holding slots while waiting for another is the caller's own deadlock
                    let r = foreign(fs.pop().unwrap()).await;
                    obs!("client {first}: response {}", r.is_ok());
                }
            }
            for f in fs {
                let r = foreign(f).await;
                obs!("client {first}: response {}", r.is_ok());
            }
        }
        _ => {
            let mut s = Box::pin(CallAllUnordered::new(x, Reqs(first, first + n)));
            while let Some(r) = foreign(poll_fn(|cx| s.as_mut().poll_next(cx))).await {
                obs!("client {first}: response {}", r.is_ok());
            }
        }
    }
}
thread_local! { static LIMITED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn limited() -> bool {
    LIMITED.with(|l| l.get())
}

fn c02(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for i in 0..MWS.len() {
        for (cn, cfg, dev) in t.pick(
            vec![("slow", LAZ, 3u32), ("prompt", OUT, 3)],
            vec![("slow", LAZ, 4), ("prompt", OUT, 4)],
        ) {
            v.push(Scenario::new(format!("{} {cn}", MWS[i].name), dev, move || c02_run(vec![i], cfg, true, 1)));
        }
    }
    for i in 0..MWS.len() {
        for (cn, cfg, dev) in t.pick(vec![("slow", LAZ, 2u32), ("prompt", OUT, 2)], vec![("slow", LAZ, 3), ("prompt", OUT, 3)]) {
            v.push(Scenario::new(format!("{} over every other, {cn}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                c02_run(vec![i, j], cfg, false, 1).await
            }));
        }
    }
    for i in 0..MWS.len() {
        v.push(Scenario::new(format!("{} over every pair", MWS[i].name), t.pick(0, 1), move || async move {
            let j = choose(MWS.len(), "middle middleware");
            let k = choose(MWS.len(), "lowest middleware");
            obs!("{} over {} over {}", MWS[i].name, MWS[j].name, MWS[k].name);
            c02_run(vec![i, j, k], LAZ, false, 1).await
        }));
    }
    // many requests
    for i in 0..MWS.len() {
        for (cn, cfg, scale, dev) in t.pick(
            vec![("slow", LAZ, 8, 1u32), ("prompt", OUT, 8, 1), ("slow", LAZ, 3, 2), ("prompt", OUT, 3, 2)],
            vec![("slow", LAZ, 40, 1), ("prompt", OUT, 40, 1), ("slow", LAZ, 8, 2), ("prompt", OUT, 8, 2), ("slow", LAZ, 3, 3)],
        ) {
            v.push(Scenario::new(format!("{}, long run x{scale}, {cn}", MWS[i].name), dev, move || c02_run(vec![i], cfg, true, scale)));
        }
        for (scale, dev) in t.pick(vec![(20, 0), (4, 1)], vec![(20, 1)]) {
            v.push(Scenario::new(format!("{} over every other, long run x{scale}", MWS[i].name), dev, move || async move {
                let j = choose(MWS.len(), "lower middleware");
                obs!("{} over {}", MWS[i].name, MWS[j].name);
                c02_run(vec![i, j], LAZ, false, scale).await
            }));
        }
    }
    v
}

/// `scale`: how many times as many requests
async fn c02_run(stack: Vec<usize>, cfg: Cfg, single: bool, scale: u32) {
    let Some(x) = build(&stack, cfg) else { return };
    let has = |n: &str| stack.iter().any(|&i| MWS[i].name.contains(n));
    // (an asynchronous filter does not dispatch before its future is polled)
    LIMITED.with(|l| l.set(has("concurrency") || has("buffer") && has("async filter")));
    let timed = has("timeout") || has("rate") || has("hedge");
    let mut s = Sched::new();
    let k = choose(5, "client kind");
    let mut clients = vec![];
    if x.1 && choose(2, "clients") == 0 {
        let y = x.clone();
        clients.push(s.spawn("client 0", client(k, x, 0, scale * if single { 2 } else { 1 })));
        clients.push(s.spawn("client 10", client(if single { 0 } else { k }, y, 10 * scale, scale)));
    } else {
        clients.push(s.spawn("client 0", client(k, x, 0, 2 * scale)));
    }
    let mut nw = 0;
    let mut rounds = 0;
    for step in 0.. {
        if step > 400 * scale {
            fail!("the system does not come to rest");
        }
        settle().await;
        for w in workers() {
            nw += 1;
            s.spawn(format!("worker {nw}"), w);
        }
        let mut st = s.steps(true);
        if st.is_empty() {
            // nothing can happen without time passing
            s.assert_no_lost_wakeup_of(clients.len()).await;
            if clients.iter().all(|&i| s.done(i)) {
                break;
            }
            rounds += 1;
            if rounds > 20 * scale {
                break;
            }
            advance(30).await;
            continue;
        }
        if timed && deviate(2, "time passes meanwhile") == 1 {
            advance(60).await;
            continue;
        }
        let c = deviate(st.len(), "step");
        let x: Step = st.swap_remove(c);
        s.exec(x);
    }
    let failed = env::w(|w| w.svcs.iter().any(|s| matches!(s.state, env::Rd::Failed(_))));
    // a balancer without endpoints waits for new ones; a handle whose inner service failed keeps its
    // reservation until it is dropped
    // (services which hold several inner services ready keep their slots: two of them may each hold what
    // the other one waits for)
    let holds = clients.len() > 1 && (has("steer") || has("balance") || has("ready cache"));
    let starves = failed && (has("balance") || has("concurrency")) || scale > 1 && holds && (has("concurrency") || has("buffer"));
    if !starves {
        for &i in &clients {
            check!(s.done(i), "client {i} never got an answer although every inner service became ready and answered");
        }
    }
    let _ = hash_now();
}
#[allow(dead_code)]
fn unused(_: EnvSvc, _: EnvFut) {}
