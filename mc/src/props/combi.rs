//! Service combinators (C26): every stack is compared step by step with the composition of the
//! functions it was built from.
use crate::core::{choose, deviate, Scenario};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvSvc, Rd, O, R};
use crate::sched::Flag;
use crate::{check, obs, Prop, Tier};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower::util::*;
use tower::{service_fn, BoxError, Layer, Service, ServiceBuilder, ServiceExt};

pub const C26: Prop = Prop { id: "C26", scenarios: c26, assumptions: &["the caller respects the poll_ready/call contract", "a service whose readiness failed is not used again"] };

/// Requests, responses and errors are symbolic traces.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V(pub Vec<u32>);
impl V {
    pub fn add(&self, x: u32) -> V {
        let mut v = self.0.clone();
        v.push(x);
        V(v)
    }
}
impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for V {}
pub type Rs = Result<V, V>;
pub type BF = Pin<Box<dyn Future<Output = Rs> + Send>>;

// ---- erased services (single-threaded executions: asserting Send/Sync is fine)
pub trait Dyn {
    fn pr(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>>;
    fn cl(&mut self, r: V) -> BF;
    fn dup(&self) -> Option<D>;
}
pub struct D(pub Box<dyn Dyn>);
unsafe impl Send for D {}
unsafe impl Sync for D {}
impl Service<V> for D {
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        self.0.pr(cx)
    }
    fn call(&mut self, r: V) -> BF {
        self.0.cl(r)
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        self.0.dup().expect("clonable")
    }
}
pub struct AS<F>(pub F);
unsafe impl<F> Send for AS<F> {}
impl<F: Future> Future for AS<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
struct Cl<S>(S);
struct NoCl<S>(S);
macro_rules! dynimpl {
    ($w:ident, $($b:ident)?, |$s:ident| $dup:expr) => {
        impl<S: Service<V, Response = V, Error = V> $(+ $b)? + 'static> Dyn for $w<S>
        where
            S::Future: 'static,
        {
            fn pr(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
                self.0.poll_ready(cx)
            }
            fn cl(&mut self, r: V) -> BF {
                Box::pin(AS(self.0.call(r)))
            }
            fn dup(&self) -> Option<D> {
                let $s = &self.0;
                $dup
            }
        }
    };
}
dynimpl!(Cl, Clone, |s| Some(D(Box::new(Cl(s.clone())))));
dynimpl!(NoCl, , |_s| None);
pub fn c<S: Service<V, Response = V, Error = V> + Clone + 'static>(s: S) -> D
where
    S::Future: 'static,
{
    D(Box::new(Cl(s)))
}
pub fn nc<S: Service<V, Response = V, Error = V> + 'static>(s: S) -> D
where
    S::Future: 'static,
{
    D(Box::new(NoCl(s)))
}

// ---- base service
#[derive(Clone)]
struct Base(EnvSvc);
struct BaseFut(EnvFut);
impl Future for BaseFut {
    type Output = Rs;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Rs> {
        Pin::new(&mut self.0).poll(cx).map(|r| base_res(r.map(|x| x.fut).map_err(|e| e.of)))
    }
}
fn base_res(r: Result<usize, usize>) -> Rs {
    match r {
        Ok(f) => Ok(seen_req(f).add(200 + f as u32)),
        Err(f) => Err(seen_req(f).add(300 + f as u32)),
    }
}
fn seen_req(f: usize) -> V {
    LOG.with(|l| l.borrow().reqs[f].clone())
}
fn ready_err(id: usize) -> V {
    V(vec![400 + id as u32])
}
impl Service<V> for Base {
    type Response = V;
    type Error = V;
    type Future = BaseFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        self.0.poll_ready_env(cx).map_err(|e: EnvErr| ready_err(e.of))
    }
    fn call(&mut self, r: V) -> BaseFut {
        let f = self.0.call_env(0);
        LOG.with(|l| l.borrow_mut().reqs.push(r));
        BaseFut(f)
    }
}

// ---- the functions handed to the combinators
#[derive(Clone, Debug, PartialEq)]
struct Ev {
    k: u32,
    what: &'static str,
    input: Option<Rs>,
    out: Option<Rs>,
    gate: Option<usize>,
}
#[derive(Default)]
struct Log {
    evs: Vec<Ev>,
    reqs: Vec<V>,
    calm: bool,
    /// a long run: choices of functions are deviations
    long: bool,
}
thread_local! { static LOG: RefCell<Log> = RefCell::default(); }
fn ev(e: Ev) {
    obs!("    function {e:?}");
    LOG.with(|l| l.borrow_mut().evs.push(e))
}
fn fchoose(n: usize, l: &str) -> usize {
    if LOG.with(|l| l.borrow().long) {
        deviate(n, l)
    } else {
        choose(n, l)
    }
}
fn calm() -> bool {
    LOG.with(|l| l.borrow().calm)
}
fn tag(k: u32, r: &Rs) -> V {
    match r {
        Ok(v) | Err(v) => v.add(k),
    }
}
fn map_res(k: u32, r: Rs) -> Rs {
    let v = tag(k, &r);
    let same = calm() || fchoose(2, "function result") == 0;
    let out = if r.is_ok() == same { Ok(v) } else { Err(v) };
    ev(Ev { k, what: "res", input: Some(r), out: Some(out.clone()), gate: None });
    out
}
fn map_ok(k: u32, r: V) -> V {
    let out = r.add(k);
    ev(Ev { k, what: "res", input: Some(Ok(r)), out: Some(Ok(out.clone())), gate: None });
    out
}
fn map_er(k: u32, r: V) -> V {
    let out = r.add(k);
    ev(Ev { k, what: "res", input: Some(Err(r)), out: Some(Err(out.clone())), gate: None });
    out
}
fn map_rq(k: u32, r: V) -> V {
    let out = r.add(k);
    ev(Ev { k, what: "req", input: Some(Ok(r)), out: Some(Ok(out.clone())), gate: None });
    out
}
fn fut_res(k: u32, r: Rs) -> BF {
    let v = tag(k, &r);
    let same = calm() || fchoose(2, "function result") == 0;
    let out = if r.is_ok() == same { Ok(v) } else { Err(v) };
    let g = env::gate(fchoose(2, "function future") == 1, k);
    ev(Ev { k, what: "res", input: Some(r), out: Some(out.clone()), gate: Some(g.id) });
    Box::pin(async move {
        g.await;
        out
    })
}

// ---- building stacks
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    MapReq,
    MapResp,
    MapErr,
    MapResult,
    MapFuture,
    Then,
    AndThen,
    Left,
    Right,
    OptSome,
    OptNone,
    Boxed,
    UnsyncBoxed,
    BoxClone,
    BoxCloneSync,
    Future,
    StdBox,
    MutRef,
    BoxDyn,
}
use K::*;
const ALL: &[K] = &[MapReq, MapResp, MapErr, MapResult, MapFuture, Then, AndThen, Left, Right, OptSome, OptNone, Boxed, UnsyncBoxed, BoxClone, BoxCloneSync, Future, StdBox, MutRef, BoxDyn];

/// `Optional` has boxed errors: take the symbolic one out again.
struct Unbox<S>(S);
impl<S: Service<V, Response = V, Error = BoxError>> Service<V> for Unbox<S>
where
    S::Future: Send + 'static,
{
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        self.0.poll_ready(cx).map_err(unbox)
    }
    fn call(&mut self, r: V) -> BF {
        let f = self.0.call(r);
        Box::pin(async move { f.await.map_err(unbox) })
    }
}
pub fn unbox(e: BoxError) -> V {
    if let Some(v) = e.downcast_ref::<V>() {
        v.clone()
    } else if e.is::<tower::util::error::optional::None>() {
        V(vec![999])
    } else {
        V(vec![998])
    }
}
/// Uses its inner service through `&mut`.
#[derive(Clone)]
struct ByRef(D);
impl Service<V> for ByRef {
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        let mut r = &mut self.0;
        <&mut D as Service<V>>::poll_ready(&mut r, cx)
    }
    fn call(&mut self, q: V) -> BF {
        let mut r = &mut self.0;
        <&mut D as Service<V>>::call(&mut r, q)
    }
}
struct Wrapped(Box<dyn Service<V, Response = V, Error = V, Future = BF>>);
impl Service<V> for Wrapped {
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, q: V) -> BF {
        self.0.call(q)
    }
}
fn clonable(k: K) -> bool {
    !matches!(k, OptSome | OptNone | Boxed | UnsyncBoxed | Future | BoxDyn)
}
/// Wrap `d`; several equivalent ways of construction.
fn wrap(kind: K, k: u32, d: D, clonable_inner: bool, ways: bool) -> (D, Option<FutSt>) {
    let n = match kind {
        MapReq | MapResp | MapErr | MapResult | MapFuture | Then | AndThen => 4,
        Boxed => 3,
        UnsyncBoxed => 2,
        BoxClone | BoxCloneSync if clonable_inner => 3,
        Future => 2,
        _ => 1,
    };
    let way = if ways && n > 1 { choose(n, "construction") } else { 0 };
    let b = ServiceBuilder::new;
    let d = match kind {
        MapReq => {
            let f = move |r| map_rq(k, r);
            match way {
                0 => c(d.map_request(f)),
                1 => c(MapRequest::new(d, f)),
                2 => c(MapRequest::<D, _>::layer(f).layer(d)),
                _ => c(b().map_request(f).service(d)),
            }
        }
        MapResp => {
            let f = move |r| map_ok(k, r);
            match way {
                0 => c(d.map_response(f)),
                1 => c(MapResponse::new(d, f)),
                2 => c(MapResponseLayer::new(f).layer(d)),
                _ => c(b().map_response(f).service(d)),
            }
        }
        MapErr => {
            let f = move |r| map_er(k, r);
            match way {
                0 => c(d.map_err(f)),
                1 => c(tower::util::MapErr::new(d, f)),
                2 => c(MapErrLayer::new(f).layer(d)),
                _ => c(b().map_err(f).service(d)),
            }
        }
        MapResult => {
            let f = move |r| map_res(k, r);
            match way {
                0 => c(d.map_result(f)),
                1 => c(tower::util::MapResult::new(d, f)),
                2 => c(MapResultLayer::new(f).layer(d)),
                _ => c(b().map_result(f).service(d)),
            }
        }
        MapFuture => {
            let f = move |fut: BF| {
                ev(Ev { k, what: "fut", input: None, out: None, gate: None });
                async move {
                    let r = fut.await;
                    map_res(k, r)
                }
            };
            match way {
                0 => c(d.map_future(f)),
                1 => c(tower::util::MapFuture::new(d, f)),
                2 => c(MapFutureLayer::new(f).layer(d)),
                _ => c(b().map_future(f).service(d)),
            }
        }
        Then => {
            let f = move |r| fut_res(k, r);
            match way {
                0 => c(d.then(f)),
                1 => c(tower::util::Then::new(d, f)),
                2 => c(ThenLayer::new(f).layer(d)),
                _ => c(b().then(f).service(d)),
            }
        }
        AndThen => {
            let f = move |r| fut_res(k, Ok(r));
            match way {
                0 => c(d.and_then(f)),
                1 => c(tower::util::AndThen::new(d, f)),
                2 => c(AndThenLayer::new(f).layer(d)),
                _ => c(b().and_then(f).service(d)),
            }
        }
        Left => c(Either::<D, D>::Left(d)),
        Right => c(Either::<D, D>::Right(d)),
        OptSome => nc(Unbox(Optional::new(Some(d)))),
        OptNone => nc(Unbox(Optional::<D>::new(None))),
        Boxed => match way {
            0 => nc(d.boxed()),
            1 => nc(BoxService::new(d)),
            _ => nc(BoxService::layer().layer(d)),
        },
        UnsyncBoxed => match way {
            0 => nc(UnsyncBoxService::new(d)),
            _ => nc(UnsyncBoxService::layer().layer(d)),
        },
        BoxClone => match way {
            0 => c(d.boxed_clone()),
            1 => c(BoxCloneService::new(d)),
            _ => c(BoxCloneService::layer().layer(d)),
        },
        BoxCloneSync => match way {
            0 => c(BoxCloneSyncService::new(d)),
            1 => c(BoxCloneSyncService::new(BoxCloneSyncService::new(d))),
            _ => c(BoxCloneSyncService::layer().layer(d)),
        },
        Future => {
            let (open, ok) = match choose(3, "service future") {
                0 => (true, true),
                1 => (false, true),
                _ => (false, false),
            };
            let g = env::gate(open, k);
            let gid = g.id;
            let err = V(vec![500 + k]);
            let res = if ok { Ok(()) } else { Err(err.clone()) };
            let fut: Pin<Box<dyn std::future::Future<Output = Result<D, V>>>> = Box::pin(async move {
                g.await;
                res.map(|_| d)
            });
            let st = FutSt { gate: gid, res: if ok { Ok(()) } else { Err(err) } };
            let d = match way {
                0 => nc(FutureService::new(fut)),
                _ => nc(future_service(fut)),
            };
            return (d, Some(st));
        }
        StdBox => c(Box::new(d)),
        MutRef => c(ByRef(d)),
        BoxDyn => nc(Wrapped(Box::new(d))),
    };
    (d, None)
}
#[derive(Clone)]
struct FutSt {
    gate: usize,
    res: Result<(), V>,
}
/// One layer of a stack, innermost first.
#[derive(Clone)]
struct L {
    kind: K,
    k: u32,
    fut: Option<FutSt>,
}

/// The state of one request in the reference composition.
struct Rq {
    /// base future (or the absent optional service)
    base: Option<usize>,
    cur: Option<Rs>,
    /// next layer (from the inside) whose function is to be applied
    next: usize,
    gate: Option<usize>,
    pos_out: Option<Rs>,
}

struct Oracle {
    layers: Vec<L>,
    /// events accounted for
    seen: usize,
}
impl Oracle {
    fn next_ev(&mut self, k: u32, what: &'static str, input: Option<Rs>) -> Ev {
        let e = LOG.with(|l| l.borrow().evs.get(self.seen).cloned());
        let Some(e) = e else {
            crate::fail!("function {k} ({what}) should have been applied to {input:?}, but was not");
        };
        check!(e.k == k && e.what == what && e.input == input, "function {k} ({what}) should have been applied to {input:?}; instead {e:?}");
        self.seen += 1;
        e
    }
    fn end(&self, at: &str) {
        let n = LOG.with(|l| l.borrow().evs.len());
        if n > self.seen {
            let e = LOG.with(|l| l.borrow().evs[self.seen].clone());
            crate::fail!("after {at} a function was applied which should not have been: {e:?}");
        }
    }
    /// What the readiness poll must answer, given what happened inside.
    fn readiness(&mut self, base: usize, polls_before: usize, called: bool) -> Poll<Result<(), V>> {
        let mut src = 0;
        let mut res: Option<Poll<Result<(), V>>> = None;
        for i in (0..self.layers.len()).rev() {
            let l = &self.layers[i];
            if l.kind == OptNone {
                res = Some(Poll::Ready(Ok(())));
                src = i + 1;
                break;
            }
            if let Some(f) = &l.fut {
                if !env::w(|w| w.gates[f.gate].open) {
                    res = Some(Poll::Pending);
                } else if let Err(e) = &f.res {
                    res = Some(Poll::Ready(Err(e.clone())));
                }
                if res.is_some() {
                    src = i + 1;
                    break;
                }
            }
        }
        let polls = env::w(|w| w.svcs[base].polls) - polls_before;
        let mut r = match res {
            Some(r) => {
                check!(polls == 0, "the inner service was polled although it is not to be reached");
                r
            }
            None => {
                check!(polls > 0, "the readiness poll did not reach the inner service");
                match env::w(|w| w.svcs[base].seen) {
                    // the call forgets the answer
                    Rd::Unknown if called => Poll::Ready(Ok(())),
                    Rd::Ready => Poll::Ready(Ok(())),
                    Rd::Pending => Poll::Pending,
                    Rd::Failed(_) => Poll::Ready(Err(ready_err(base))),
                    Rd::Unknown => unreachable!(),
                }
            }
        };
        if let Poll::Ready(Err(e)) = &mut r {
            for i in src..self.layers.len() {
                if self.layers[i].kind == MapErr {
                    let x = self.next_ev(self.layers[i].k, "res", Some(Err(e.clone())));
                    *e = x.out.unwrap().unwrap_err();
                }
            }
        }
        r
    }
    /// Check what a call did.
    fn called(&mut self, base: usize, calls_before: usize, req: V) -> Rq {
        let mut cur = req;
        let mut src = 0;
        let mut to_base = true;
        for i in (0..self.layers.len()).rev() {
            let l = self.layers[i].clone();
            if l.kind == MapReq {
                cur = self.next_ev(l.k, "req", Some(Ok(cur))).out.unwrap().unwrap();
            }
            if l.kind == OptNone {
                src = i + 1;
                to_base = false;
                break;
            }
        }
        let made = env::n_calls() - calls_before;
        check!(made == to_base as usize, "one call made {made} inner calls");
        let fid = to_base.then(|| {
            let (s, f) = env::w(|w| w.calls[calls_before]);
            check!(s == base, "inner service {s} called instead of {base}");
            check!(seen_req(f) == cur, "the inner service received {:?} instead of {cur:?}", seen_req(f));
            f
        });
        for i in src..self.layers.len() {
            if self.layers[i].kind == MapFuture {
                let k = self.layers[i].k;
                self.next_ev(k, "fut", None);
            }
        }
        Rq { base: fid, cur: None, next: src, gate: None, pos_out: None }
    }
    /// Check what a poll of the response future did, and give the expected result.
    fn response(&mut self, q: &mut Rq) -> Poll<Rs> {
        if q.cur.is_none() {
            q.cur = match q.base {
                None => Some(Err(V(vec![999]))),
                Some(f) => env::expected(f).map(|r| base_res(r.map(|x| x.fut).map_err(|e| e.of))),
            };
            if q.cur.is_none() {
                return Poll::Pending;
            }
        }
        loop {
            if let Some(g) = q.gate {
                if !env::w(|w| w.gates[g].open) {
                    return Poll::Pending;
                }
                q.gate = None;
                q.cur = q.pos_out.take();
            }
            if q.next == self.layers.len() {
                return Poll::Ready(q.cur.clone().unwrap());
            }
            let l = self.layers[q.next].clone();
            q.next += 1;
            let cur = q.cur.clone().unwrap();
            let applies = match l.kind {
                MapResp | AndThen => cur.is_ok(),
                MapErr => cur.is_err(),
                MapResult | Then | MapFuture => true,
                _ => false,
            };
            if applies {
                let e = self.next_ev(l.k, "res", Some(cur));
                match e.gate {
                    Some(g) => {
                        q.gate = Some(g);
                        q.pos_out = e.out;
                    }
                    None => q.cur = e.out,
                }
            }
        }
    }
}

fn c26(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    // (stack height, requests, ops, deviations, all ways of construction, full outcomes)
    for (h, reqs, depth, dev, ways) in t.pick(
        vec![(0usize, 2usize, 7usize, 2, true), (1, 1, 6, 1, true), (1, 2, 7, 1, false), (2, 1, 6, 0, true), (2, 1, 6, 1, false), (2, 2, 7, 0, false), (3, 1, 9, 0, false)],
        vec![(0, 3, 10, 3, true), (1, 2, 9, 1, true), (1, 2, 9, 2, false), (2, 1, 8, 1, true), (2, 2, 9, 1, false), (3, 1, 9, 1, false), (4, 1, 7, 0, false)],
    ) {
        v.push(Scenario::new(format!("stack height={h} requests<={reqs} depth={depth} all-constructors={ways}"), dev, move || run(h, reqs, depth, ways, false)));
    }
    for (h, reqs, depth, dev) in t.pick(vec![(0usize, 10usize, 60usize, 2), (1, 8, 45, 2), (2, 12, 60, 1)], vec![(0, 24, 140, 2), (1, 16, 80, 2), (2, 6, 30, 2), (3, 8, 40, 1)]) {
        v.push(Scenario::new(format!("long run, stack height={h} requests<={reqs} depth={depth}"), dev, move || run(h, reqs, depth, false, true)));
    }
    v
}

enum Slot {
    Svc(D),
    Ready(ReadyOneshot<D, V>),
    Gone,
}
struct Hd {
    slot: Slot,
    base: usize,
    flag: Arc<Flag>,
    waker: Waker,
    polled: bool,
    ready: bool,
    dead: bool,
}
struct Rp {
    fut: Option<BF>,
    flag: Arc<Flag>,
    waker: Waker,
    polled: bool,
    /// oneshot: not called yet
    pre: Option<(usize, V)>,
    q: Option<Rq>,
}

/// `long`: one request after the other; everything else is a deviation.
async fn run(h: usize, reqs: usize, depth: usize, ways: bool, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    // the taller the stack, the fewer the choices of the innermost service
    const CALM: Cfg = Cfg { ready: &[R::Ready, R::Err], call: &[O::Ok, O::Err], ..IN };
    LOG.with(|l| *l.borrow_mut() = Log { calm: h >= 3, long, ..Log::default() });
    let mode = choose(4, "driver");
    let svc = env::svc(Cfg { dev: long, ..if h >= 3 { CALM } else { IN } });
    let base = svc.id;
    let mut d = match h {
        0 if mode == 0 && choose(2, "base") == 1 => {
            // a function as the innermost service: always ready
            let s = Arc::new(std::sync::Mutex::new(Base(svc)));
            let flag_w = Flag::new().1;
            let f = service_fn(move |r: V| {
                let mut s = s.lock().unwrap();
                env::wake_svc(s.0.id, R::Ready);
                let _ = s.0.poll_ready_env(&mut Context::from_waker(&flag_w));
                s.call(r)
            });
            let mut f = ServiceBuilder::new().service(f);
            for n in 0..2 {
                check!(f.poll_ready(&mut Context::from_waker(&Flag::new().1)).is_ready(), "a function service is not ready");
                let calls = env::n_calls();
                let mut fut = Box::pin(f.call(V(vec![n])));
                check!(env::n_calls() == calls + 1 && seen_req(calls) == V(vec![n]), "the function was not called once with the request");
                let r = fut.as_mut().poll(&mut Context::from_waker(&Flag::new().1));
                let want = env::expected(calls).map(|r| base_res(r.map(|x| x.fut).map_err(|e| e.of)));
                check!(r == want.clone().map_or(Poll::Pending, Poll::Ready), "the function service answered {r:?} instead of {want:?}");
            }
            return;
        }
        _ => c(Base(svc)),
    };
    let mut cl = true;
    let mut layers = vec![];
    for i in 0..h {
        let usable: Vec<K> = ALL.iter().copied().filter(|k| cl || !matches!(k, BoxClone | BoxCloneSync)).collect();
        let kind = usable[choose(usable.len(), "combinator")];
        let k = 10 + i as u32;
        let (d2, fut) = wrap(kind, k, d, cl, ways);
        d = d2;
        cl &= clonable(kind);
        layers.push(L { kind, k, fut });
    }
    obs!("stack {:?}, driver {mode}", layers.iter().map(|l| l.kind).collect::<Vec<_>>());
    let mut o = Oracle { layers, seen: 0 };
    let unreachable_base = o.layers.iter().any(|l| l.kind == OptNone);
    let (flag, waker) = Flag::new();
    let mut hs = vec![Hd { slot: Slot::Svc(d), base, flag, waker, polled: false, ready: false, dead: false }];
    let mut rs: Vec<Rp> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        Clone(usize),
        PollR(usize),
        DropR(usize),
        DropS(usize),
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        for (i, h) in hs.iter().enumerate() {
            if h.dead || matches!(h.slot, Slot::Gone) {
                continue;
            }
            if h.ready || mode == 3 {
                if rs.len() < reqs {
                    ops.push(Op::Call(i));
                }
                if h.ready && mode < 2 {
                    sp.push(Op::Poll(i));
                }
            } else if !h.polled || h.flag.is() {
                ops.push(Op::Poll(i));
            } else {
                sp.push(Op::Poll(i));
            }
            if cl && hs.len() < 2 && matches!(h.slot, Slot::Svc(_)) {
                sp.push(Op::Clone(i));
            }
            sp.push(Op::DropS(i));
        }
        for (i, r) in rs.iter().enumerate() {
            if r.fut.is_some() {
                if !r.polled || r.flag.is() {
                    ops.push(Op::PollR(i));
                } else {
                    sp.push(Op::PollR(i));
                }
                sp.push(Op::DropR(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let op = if long {
            ops.sort_by_key(|o| match o {
                Op::PollR(_) if rs.len() % 3 != 0 => 0,
                Op::Call(i) | Op::Poll(i) => 1 + (i + rs.len()) % 2,
                Op::PollR(_) => 3,
                _ => 4,
            });
            ops.extend(sp);
            ops[deviate(ops.len(), "op")]
        } else {
            let dv = if sp.is_empty() { 0 } else { deviate(sp.len() + 1, "spurious poll, clone or drop") };
            if dv > 0 {
                sp[dv - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let b = hs[i].base;
                let polls = env::w(|w| w.svcs[b].polls);
                let calls = env::n_calls();
                let h = &mut hs[i];
                h.flag.clear();
                h.polled = true;
                let w = h.waker.clone();
                let mut cx = Context::from_waker(&w);
                let r = match std::mem::replace(&mut h.slot, Slot::Gone) {
                    Slot::Svc(mut s) if mode == 0 => {
                        let r = s.poll_ready(&mut cx);
                        h.slot = Slot::Svc(s);
                        r
                    }
                    Slot::Svc(mut s) if mode == 1 => {
                        let r = Pin::new(&mut s.ready()).poll(&mut cx).map_ok(|_| ());
                        h.slot = Slot::Svc(s);
                        r
                    }
                    Slot::Gone => unreachable!(),
                    s => {
                        let mut f = match s {
                            Slot::Svc(s) => s.ready_oneshot(),
                            Slot::Ready(f) => f,
                            Slot::Gone => unreachable!(),
                        };
                        match Pin::new(&mut f).poll(&mut cx) {
                            Poll::Ready(Ok(s)) => {
                                h.slot = Slot::Svc(s);
                                Poll::Ready(Ok(()))
                            }
                            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                            Poll::Pending => {
                                h.slot = Slot::Ready(f);
                                Poll::Pending
                            }
                        }
                    }
                };
                let want = o.readiness(b, polls, false);
                check!(r == want, "readiness is {r:?} instead of {want:?}");
                check!(env::n_calls() == calls, "a readiness poll made a call");
                o.end("a readiness poll");
                obs!("  -> {r:?}");
                hs[i].ready = matches!(r, Poll::Ready(Ok(())));
                hs[i].dead = matches!(r, Poll::Ready(Err(_)));
            }
            Op::Call(i) => {
                let b = hs[i].base;
                let calls = env::n_calls();
                let req = V(vec![100 + rs.len() as u32]);
                let (flag, waker) = Flag::new();
                let mut rp = Rp { fut: None, flag, waker, polled: false, pre: None, q: None };
                if mode == 3 {
                    let Slot::Svc(s) = std::mem::replace(&mut hs[i].slot, Slot::Gone) else { unreachable!() };
                    let polls = env::w(|w| w.svcs[b].polls);
                    rp.fut = Some(if fchoose(2, "oneshot") == 0 { Box::pin(AS(s.oneshot(req.clone()))) } else { Box::pin(AS(Oneshot::new(s, req.clone()))) });
                    check!(env::n_calls() == calls && env::w(|w| w.svcs[b].polls) == polls, "an unpolled oneshot used the service");
                    rp.pre = Some((b, req));
                } else {
                    hs[i].ready = false;
                    hs[i].polled = false;
                    let Slot::Svc(s) = &mut hs[i].slot else { unreachable!() };
                    let polls = env::w(|w| w.svcs[b].polls);
                    rp.fut = Some(s.call(req.clone()));
                    check!(env::w(|w| w.svcs[b].polls) == polls, "a call polled the inner service");
                    rp.q = Some(o.called(b, calls, req));
                }
                o.end("a call");
                rs.push(rp);
            }
            Op::Clone(i) => {
                let Slot::Svc(s) = &hs[i].slot else { unreachable!() };
                let n = env::w(|w| w.svcs.len());
                let s2 = s.clone();
                let made: Vec<usize> = env::w(|w| (n..w.svcs.len()).filter(|&j| !w.svcs[j].dropped).collect());
                check!(made.len() == 1, "cloning the stack left {} clones of the inner service", made.len());
                let (flag, waker) = Flag::new();
                o.end("a clone");
                hs.push(Hd { slot: Slot::Svc(s2), base: made[0], flag, waker, polled: false, ready: false, dead: false });
            }
            Op::PollR(i) => {
                let r = &mut rs[i];
                r.flag.clear();
                r.polled = true;
                let w = r.waker.clone();
                let calls = env::n_calls();
                let polls = r.pre.as_ref().map(|(b, _)| env::w(|w| w.svcs[*b].polls));
                let got = r.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
                let mut want: Option<Poll<Rs>> = None;
                if let Some((b, req)) = r.pre.clone() {
                    // a oneshot: readiness, then the call
                    match o.readiness(b, polls.unwrap(), env::n_calls() > calls) {
                        Poll::Pending => want = Some(Poll::Pending),
                        Poll::Ready(Err(e)) => want = Some(Poll::Ready(Err(e))),
                        Poll::Ready(Ok(())) => {
                            r.pre = None;
                            r.q = Some(o.called(b, calls, req));
                        }
                    }
                } else {
                    check!(env::n_calls() == calls, "polling a response called the service");
                }
                let want = match want {
                    Some(w) => w,
                    None => o.response(r.q.as_mut().unwrap()),
                };
                check!(got == want, "response {i} is {got:?} instead of {want:?}");
                o.end("polling a response");
                obs!("  -> {got:?}");
                if got.is_ready() {
                    r.fut = None;
                }
            }
            Op::DropR(i) => {
                rs[i].fut = None;
                if let Some(q) = &rs[i].q {
                    if let Some(f) = q.base {
                        check!(env::w(|w| w.futs[f].dropped), "dropping a response leaves the inner response future alive");
                    }
                    if let Some(g) = q.gate {
                        check!(env::w(|w| w.gates[g].dropped), "dropping a response leaves the function's future alive");
                    }
                }
                o.end("dropping a response");
            }
            Op::DropS(i) => {
                hs[i].slot = Slot::Gone;
                if !unreachable_base {
                    check!(env::w(|w| w.svcs[hs[i].base].dropped), "dropping the stack leaves the inner service alive");
                }
                o.end("dropping the service");
            }
            Op::Env(a) => env::act(a),
        }
        // wakeups: whoever would make progress must have been woken
        for (i, r) in rs.iter().enumerate() {
            if r.fut.is_some() && r.polled && !r.flag.is() {
                let stuck = match &r.q {
                    None => r.pre.as_ref().is_some_and(|(b, _)| !o.blocked(*b)),
                    Some(q) => match (q.gate, q.base, &q.cur) {
                        (Some(g), _, _) => env::w(|w| w.gates[g].open),
                        (_, Some(f), None) => env::expected(f).is_some(),
                        _ => false,
                    },
                };
                check!(!stuck, "response {i} could go on, but its caller was not woken");
            }
        }
        for (i, h) in hs.iter().enumerate() {
            if !matches!(h.slot, Slot::Gone) && !h.dead && h.polled && !h.ready && !h.flag.is() {
                check!(o.blocked(h.base), "service {i} could become ready, but its caller was not woken");
            }
        }
    }
}
impl Oracle {
    /// Is readiness still blocked by something?
    fn blocked(&self, base: usize) -> bool {
        for l in self.layers.iter().rev() {
            if l.kind == OptNone {
                return false;
            }
            if let Some(f) = &l.fut {
                if !env::w(|w| w.gates[f.gate].open) {
                    return true;
                }
                if f.res.is_err() {
                    return false;
                }
            }
        }
        env::w(|w| w.svcs[base].state) == Rd::Pending
    }
}
