//! Tracing (C34): in which span the work for a request is done, and that nothing else depends on it.
use crate::core::{choose, deviate, Scenario};
use crate::drive::{Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvRes, EnvSvc, Rsp, O, R};
use crate::sched::{settle, Flag};
use crate::{check, fail, obs, Prop, Tier};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::{BoxError, Service, ServiceBuilder, ServiceExt};
use tracing::span::{Attributes, Id, Record};
use tracing_core::span::Current;
use tracing::{Event, Metadata, Span};

pub const C34: Prop = Prop {
    id: "C34",
    scenarios: c34,
    assumptions: &["the subscriber sees every span and event and formats every field", "single-threaded tokio runtime", "the caller respects the poll_ready/call contract"],
};

// ---------------------------------------------------------------------------------- subscriber

#[derive(Default)]
struct Tr {
    on: bool,
    next: u64,
    /// spans entered on this thread, innermost last
    stack: Vec<u64>,
    /// open spans and how many handles they have
    open: HashMap<u64, (usize, &'static Metadata<'static>)>,
    bad: Option<String>,
}
thread_local! {
    static T: RefCell<Option<Tr>> = const { RefCell::new(None) };
    /// the span the driver has entered (0: none)
    static AMB: Cell<u64> = const { Cell::new(0) };
    /// what the wrapped service was asked: (request or None for readiness, innermost span, driver's span)
    static LOG: RefCell<Vec<(Option<u32>, u64, u64)>> = const { RefCell::new(vec![]) };
    static EVENTS: Cell<usize> = const { Cell::new(0) };
}
fn tr<X>(f: impl FnOnce(&mut Tr) -> X) -> Option<X> {
    T.try_with(|t| t.try_borrow_mut().ok().and_then(|mut t| t.as_mut().map(f))).ok().flatten()
}
struct Fmt(String);
impl tracing::field::Visit for Fmt {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}
struct Sub;
impl tracing::Subscriber for Sub {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        tr(|t| t.on).unwrap_or(false)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        tr(|t| {
            t.next += 1;
            t.open.insert(t.next, (1, a.metadata()));
            Id::from_u64(t.next)
        })
        .unwrap_or(Id::from_u64(u64::MAX))
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut f = Fmt(String::new());
        e.record(&mut f);
        EVENTS.set(EVENTS.get() + 1);
    }
    fn enter(&self, id: &Id) {
        let id = id.into_u64();
        tr(|t| {
            if !t.open.contains_key(&id) {
                t.bad = Some(format!("span {id} was entered after it had been closed"));
            }
            t.stack.push(id)
        });
    }
    fn exit(&self, id: &Id) {
        let id = id.into_u64();
        tr(|t| match t.stack.iter().rposition(|x| *x == id) {
            Some(i) => {
                t.stack.remove(i);
            }
            None => t.bad = Some(format!("span {id} was left without having been entered")),
        });
    }
    fn clone_span(&self, id: &Id) -> Id {
        tr(|t| {
            if let Some(o) = t.open.get_mut(&id.into_u64()) {
                o.0 += 1
            }
        });
        id.clone()
    }
    fn try_close(&self, id: Id) -> bool {
        tr(|t| {
            if let Some(o) = t.open.get_mut(&id.into_u64()) {
                o.0 -= 1;
                if o.0 == 0 {
                    t.open.remove(&id.into_u64());
                    return true;
                }
            }
            false
        })
        .unwrap_or(false)
    }
    fn current_span(&self) -> Current {
        tr(|t| t.stack.last().and_then(|id| t.open.get(id).map(|o| Current::new(Id::from_u64(*id), o.1)))).flatten().unwrap_or_else(Current::none)
    }
}
/// switch tracing on for this execution
fn on() {
    T.with(|t| *t.borrow_mut() = Some(Tr { on: true, ..Tr::default() }));
    AMB.set(0);
    LOG.with(|l| l.borrow_mut().clear());
    // not left on for the next execution on this thread: `off`, or the next `on`
}
fn top() -> u64 {
    tr(|t| t.stack.last().copied().unwrap_or(0)).unwrap_or(0)
}
fn n_open() -> usize {
    tr(|t| t.open.len()).unwrap_or(0)
}
fn sane() {
    if let Some(Some(b)) = tr(|t| t.bad.take()) {
        fail!("{b}");
    }
    let s = tr(|t| t.stack.clone()).unwrap_or_default();
    check!(s.is_empty(), "the spans {s:?} are still entered after the operation");
}
fn span() -> Span {
    tracing::trace_span!("driver")
}
fn id(s: &Span) -> u64 {
    s.id().map(|i| i.into_u64()).unwrap_or(0)
}
/// run `f` with the span entered
fn within<X>(s: &Span, f: impl FnOnce() -> X) -> X {
    let was = AMB.replace(id(s));
    let r = s.in_scope(f);
    AMB.set(was);
    sane();
    r
}

/// The wrapped service, noting the innermost span of everything it is asked.
#[derive(Clone, Debug)]
struct In(EnvSvc);
struct InFut(EnvFut);
fn see(what: Option<u32>) {
    let t = top();
    LOG.with(|l| l.borrow_mut().push((what, t, AMB.get())));
    obs!("  inner {} in span {t}", what.map(|r| format!("called with {r}")).unwrap_or("polled".into()));
}
impl Service<u32> for In {
    type Response = Rsp;
    type Error = EnvErr;
    type Future = InFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        see(None);
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, r: u32) -> InFut {
        see(Some(r));
        InFut(self.0.call_env(r))
    }
}
impl Future for InFut {
    type Output = EnvRes;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<EnvRes> {
        let t = top();
        check!(t == AMB.get(), "the response future of request {} is polled in span {t}, its owner polls it in {}", env::w(|w| w.futs[self.0.id].req), AMB.get());
        Pin::new(&mut self.0).poll(cx)
    }
}
fn take_log() -> Vec<(Option<u32>, u64, u64)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---------------------------------------------------------------------------------- buffer

type B = tower::buffer::Buffer<u32, InFut>;

/// Operations on two handles and the worker; every request is made in a span of its own (or in none).
async fn buffer(bound: usize, n: usize, depth: usize, fails: bool) {
    const SLOW: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Ok, O::Pend], fin: &[O::Ok], ..env::ALWAYS };
    const FAILS: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], ..SLOW };
    on();
    {
        let (b, w) = B::pair(In(env::svc(if fails { FAILS } else { SLOW })), bound);
        let mut worker = Some(Box::pin(w));
        let (wflag, wwaker) = Flag::new();
        let wspan = span();
        let pspan = span();
        let rspan = span();
        let mut first = true;
        let mut hs: Vec<Handle<B>> = (0..n).map(|_| Handle::new(b.clone())).collect();
        drop(b);
        // per request: response, its span's id (0: made outside any span), dispatched
        let mut rq: Vec<(Resp<tower::buffer::future::ResponseFuture<InFut>>, u64, bool)> = vec![];
        let mut failed = false;
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll(usize),
            Call(usize),
            Worker,
            PollF(usize),
            DropF(usize),
            Env(env::Act),
        }
        for _ in 0..depth {
            let mut ops = vec![];
            for (i, h) in hs.iter().enumerate() {
                match h.st {
                    H::Idle => ops.push(Op::Poll(i)),
                    H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                    H::Ready => ops.push(Op::Call(i)),
                    _ => {}
                }
            }
            if worker.is_some() && (first || wflag.is()) {
                ops.push(Op::Worker);
            }
            for (i, r) in rq.iter().enumerate() {
                if r.0.due() {
                    ops.push(Op::PollF(i));
                }
                if r.0.live() {
                    ops.push(Op::DropF(i));
                }
            }
            ops.extend(env::acts().into_iter().map(Op::Env));
            if ops.is_empty() {
                break;
            }
            let op = ops[choose(ops.len(), "op")];
            obs!("{op:?}");
            match op {
                Op::Poll(i) => {
                    let _ = within(&pspan, || hs[i].poll_ready());
                }
                Op::Call(i) => {
                    let req = rq.len() as u32;
                    if choose(2, "request made in a span, or in none") == 0 {
                        let s = span();
                        let r = within(&s, || hs[i].call(req));
                        obs!("  in span {}", id(&s));
                        rq.push((r, id(&s), false));
                        // (the caller's handle of the span ends here)
                    } else {
                        rq.push((hs[i].call(req), 0, false));
                        sane();
                    }
                }
                Op::Worker => {
                    first = false;
                    wflag.clear();
                    let head: Vec<usize> = (0..rq.len()).filter(|&i| !rq[i].2 && rq[i].0.live()).collect();
                    let r = within(&wspan, || worker.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wwaker)));
                    let mut turn = head.into_iter();
                    let mut cur = turn.next();
                    for (what, seen, _) in take_log() {
                        let Some(i) = cur else { fail!("the worker asked the wrapped service something without a request waiting") };
                        // a request made outside of any span is handled in the worker's own
                        let want = if rq[i].1 == 0 { id(&wspan) } else { rq[i].1 };
                        match what {
                            None => check!(seen == want, "readiness for request {i} was polled in span {seen} instead of {want}"),
                            Some(x) => {
                                check!(x as usize == i, "request {x} was dispatched when it was the turn of {i}");
                                check!(seen == want, "request {i} was dispatched in span {seen} instead of {want}");
                                rq[i].2 = true;
                                cur = turn.next();
                            }
                        }
                    }
                    failed |= matches!(env::w(|w| w.svcs[0].state), env::Rd::Failed(_));
                    if r.is_ready() {
                        worker = None;
                    }
                }
                Op::PollF(i) => {
                    within(&rspan, || rq[i].0.poll());
                }
                Op::DropF(i) => rq[i].0.drop_fut(),
                Op::Env(a) => env::act(a),
            }
            settle().await;
            sane();
            check!(take_log().is_empty(), "the wrapped service was asked something outside of the worker");
            // a span stays open while its request waits, and no longer than the request
            for (i, r) in rq.iter().enumerate() {
                let open = tr(|t| t.open.contains_key(&r.1)).unwrap_or(false);
                let waits = !r.2 && r.0.live() && worker.is_some() && !failed;
                check!(r.1 == 0 || !waits || open, "the span of request {i} was closed while the request waits");
                check!(!r.2 || !open, "the span of request {i} is still open after the request was dispatched");
            }
        }
    }
    settle().await;
    check!(n_open() == 0, "{} spans are still open after everything is gone", n_open());
    T.with(|t| *t.borrow_mut() = None);
}

// ---------------------------------------------------------------------------------- spawn-ready

async fn spawn_ready(depth: usize) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend], fin: &[O::Ok], revoke: true, ..env::ALWAYS };
    on();
    {
        let mut h = Handle::new(tower::spawn_ready::SpawnReady::new(In(env::svc(IN))));
        let mut resps: Vec<Resp<_>> = vec![];
        // the spans readiness may be polled in (0: none); the one whose poll handed the service over
        let spans = [Span::none(), span(), span()];
        let rspan = span();
        let mut bg = 0;
        let mut dirty = false;
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll,
            Spurious,
            Call,
            Run,
            PollF(usize),
            Env(env::Act),
        }
        for _ in 0..depth {
            let mut ops = vec![];
            match h.st {
                H::Idle => ops.push(Op::Poll),
                H::Waiting if h.flag.is() => ops.push(Op::Poll),
                H::Waiting => ops.push(Op::Spurious),
                H::Ready => ops.push(Op::Call),
                _ => {}
            }
            if dirty {
                ops.push(Op::Run);
            }
            for (i, r) in resps.iter().enumerate() {
                let r: &Resp<_> = r;
                if r.due() {
                    ops.push(Op::PollF(i));
                }
            }
            ops.extend(env::acts().into_iter().map(Op::Env));
            if ops.is_empty() {
                break;
            }
            let op = ops[choose(ops.len(), "op")];
            obs!("{op:?}");
            match op {
                Op::Poll | Op::Spurious => {
                    let s = &spans[choose(spans.len(), "span")];
                    let r = within(s, || h.poll_ready()).is_pending();
                    let log = take_log();
                    for (what, seen, amb) in &log {
                        check!(what.is_none() && seen == amb, "readiness was polled in span {seen} instead of the caller's {amb}");
                    }
                    if r && !log.is_empty() {
                        bg = id(s);
                    }
                    dirty = true;
                }
                Op::Call => {
                    let s = &spans[choose(spans.len(), "span")];
                    let req = resps.len() as u32;
                    resps.push(within(s, || h.call(req)));
                    let log = take_log();
                    check!(log == [(Some(req), id(s), id(s))], "a call in span {} became {log:?}", id(s));
                }
                Op::Run => {
                    settle().await;
                    sane();
                    dirty = false;
                    for (what, seen, _) in take_log() {
                        check!(what.is_none() && seen == bg, "the background readiness was polled in span {seen} instead of {bg}, which the service was handed over in");
                    }
                }
                Op::PollF(i) => {
                    within(&rspan, || resps[i].poll());
                }
                Op::Env(a) => {
                    env::act(a);
                    dirty = true;
                }
            }
            sane();
            check!(take_log().is_empty(), "the wrapped service was asked something out of turn");
        }
    }
    settle().await;
    sane();
    check!(n_open() == 0, "{} spans are still open after everything is gone", n_open());
    T.with(|t| *t.borrow_mut() = None);
}

// ---------------------------------------------------------------------------------- the others

type Bx = tower::util::BoxService<u32, Rsp, BoxError>;
const N_OTHER: usize = 14;
fn other(k: usize) -> (&'static str, Bx) {
    let i = In(env::svc(Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS }));
    fn b<S>(n: &'static str, s: S) -> (&'static str, Bx)
    where
        S: Service<u32, Response = Rsp> + Send + 'static,
        S::Error: Into<BoxError> + 'static,
        S::Future: Send,
    {
        (n, Bx::new(s.map_err(Into::into)))
    }
    #[derive(Clone)]
    struct Again(usize);
    impl tower::retry::Policy<u32, Rsp, EnvErr> for Again {
        type Future = std::future::Ready<()>;
        fn retry(&mut self, _: &mut u32, r: &mut Result<Rsp, EnvErr>) -> Option<Self::Future> {
            if r.is_err() && self.0 > 0 {
                self.0 -= 1;
                Some(std::future::ready(()))
            } else {
                None
            }
        }
        fn clone_request(&mut self, r: &u32) -> Option<u32> {
            Some(*r)
        }
    }
    #[derive(Clone)]
    struct Twice;
    impl tower::hedge::Policy<u32> for Twice {
        fn clone_request(&self, r: &u32) -> Option<u32> {
            Some(*r)
        }
        fn can_retry(&self, _: &u32) -> bool {
            true
        }
    }
    match k {
        0 => b("timeout", tower::timeout::Timeout::new(i, Duration::from_millis(10))),
        1 => b("rate limit", tower::limit::RateLimit::new(i, tower::limit::rate::Rate::new(1, Duration::from_millis(5)))),
        2 => b("concurrency limit", tower::limit::ConcurrencyLimit::new(i, 1)),
        3 => b("load shed", tower::load_shed::LoadShed::new(i)),
        4 => b("retry", tower::retry::Retry::new(Again(2), i)),
        5 => b("filter", tower::filter::Filter::new(i, |r: u32| Ok::<u32, BoxError>(r))),
        6 => b(
            "async filter",
            tower::filter::AsyncFilter::new(i, |r: u32| {
                let g = env::gate(false, r);
                async move {
                    g.await;
                    Ok::<u32, BoxError>(r)
                }
            }),
        ),
        7 => b("hedge", tower::hedge::Hedge::new_with_mock_latencies(i, Twice, 1, 0.5, Duration::from_millis(100), &[3, 3, 3])),
        8 => b("steer", tower::steer::Steer::new(vec![i], |_: &u32, _: &[In]| 0usize)),
        9 => b("reconnect", {
            // a maker of services sharing the one connection
            let cell = std::sync::Mutex::new(Some(i));
            tower::reconnect::Reconnect::new(tower::service_fn(move |_: ()| std::future::ready(cell.lock().unwrap().take().ok_or(EnvErr { ready: true, of: 77 }))), ())
        }),
        10 => b("balance", tower::balance::p2c::Balance::new(tower::discover::ServiceList::new(vec![tower::load::PendingRequests::new(i, tower::load::CompleteOnResponse::default())]))),
        11 => b("peak ewma", tower::load::PeakEwma::new(i, Duration::from_millis(10), 1e6, tower::load::CompleteOnResponse::default())),
        12 => b("combinators", ServiceBuilder::new().map_request(|r: u32| r).map_response(|r: Rsp| r).map_result(|r: EnvRes| r).then(|r: EnvRes| std::future::ready(r)).service(tower::util::BoxCloneService::new(i))),
        _ => b("one-shot", {
            let s = std::sync::Arc::new(std::sync::Mutex::new(Some(i)));
            tower::service_fn(move |r: u32| match s.lock().unwrap().take() {
                Some(s) => futures_util::future::Either::Left(s.oneshot(r)),
                None => futures_util::future::Either::Right(std::future::ready(Err(EnvErr { ready: true, of: 77 }))),
            })
        }),
    }
}
/// Everything a middleware asks the wrapped service happens in the span of whoever polls or calls it.
async fn ambient(k: usize, depth: usize) {
    on();
    {
        let (name, s) = other(k);
        obs!("{name}");
        let mut h = Handle::new(s);
        let spans = [Span::none(), span(), span(), span()];
        let mut resps: Vec<Resp<_>> = vec![];
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll,
            Call,
            PollF(usize),
            DropF(usize),
            Env(env::Act),
            Time,
        }
        for _ in 0..depth {
            let mut ops = vec![];
            match h.st {
                H::Idle => ops.push(Op::Poll),
                H::Waiting if h.flag.is() => ops.push(Op::Poll),
                H::Ready => ops.push(Op::Call),
                _ => {}
            }
            for (i, r) in resps.iter().enumerate() {
                let r: &Resp<_> = r;
                if r.due() {
                    ops.push(Op::PollF(i));
                }
                if r.live() {
                    ops.push(Op::DropF(i));
                }
            }
            ops.extend(env::acts().into_iter().map(Op::Env));
            if (h.st == H::Waiting && !h.flag.is()) || resps.iter().any(|r| r.live() && !r.due()) {
                ops.push(Op::Time);
            }
            if ops.is_empty() {
                break;
            }
            let op = ops[choose(ops.len(), "op")];
            obs!("{op:?}");
            match op {
                Op::Poll => {
                    let s = &spans[1 - deviate(2, "outside of any span")];
                    let _ = within(s, || h.poll_ready());
                }
                Op::Call => {
                    let s = &spans[2 * (1 - deviate(2, "outside of any span"))];
                    let n = resps.len() as u32;
                    resps.push(within(s, || h.call(n)));
                }
                Op::PollF(i) => {
                    let s = &spans[3 * (1 - deviate(2, "outside of any span"))];
                    within(s, || resps[i].poll());
                }
                Op::DropF(i) => resps[i].drop_fut(),
                Op::Env(a) => env::act(a),
                Op::Time => tokio::time::advance(Duration::from_millis(5)).await,
            }
            settle().await;
            sane();
            for (what, seen, amb) in take_log() {
                check!(seen == amb, "{name}: the wrapped service was {} in span {seen}, the caller was in {amb}", what.map(|r| format!("called with {r}")).unwrap_or("polled".into()));
            }
        }
    }
    settle().await;
    sane();
    check!(n_open() == 0, "{} spans are still open after everything is gone", n_open());
    T.with(|t| *t.borrow_mut() = None);
}

// ---------------------------------------------------------------------------------- nothing else

/// Scenarios of the properties whose code reports events, with all of these switched on.
fn same_with_tracing(t: Tier) -> Vec<Scenario> {
    use super::*;
    let mut v = vec![];
    let props: [(&Prop, &[&str]); 8] = [
        (&buffer::C03, &["ops bound=1 clones=2", "burst bound=5"]),
        (&buffer::C04, &["ops bound=1 clones=2"]),
        (&limit::C07, &[""]),
        (&hedge::C15, &[""]),
        (&balance::C16, &[""]),
        (&balance::C17, &[""]),
        (&load::C20, &[""]),
        (&wrap::C21, &[""]),
    ];
    for (p, names) in props {
        for n in names {
            if let Some(s) = (p.scenarios)(t).into_iter().find(|s| s.name.starts_with(n)) {
                let body = s.body.clone();
                v.push(Scenario::new(format!("with tracing: {} {}", p.id, s.name), s.dev_bound, move || {
                    let body = body.clone();
                    async move {
                        on();
                        body().await;
                        settle().await;
                        sane();
                        check!(n_open() == 0, "{} spans are still open after everything is gone", n_open());
                        T.with(|t| *t.borrow_mut() = None);
                    }
                }));
            }
        }
    }
    v
}

fn c34(t: Tier) -> Vec<Scenario> {
    let _ = tracing::subscriber::set_global_default(Sub);
    let mut v = vec![];
    for (bound, n, depth, fails) in t.pick(vec![(1usize, 2usize, 8usize, false), (2, 2, 8, false), (2, 2, 8, true)], vec![(1, 2, 10, false), (2, 2, 10, false), (3, 3, 9, false), (1, 2, 10, true), (2, 2, 10, true)]) {
        v.push(Scenario::new(format!("buffer bound={bound} handles={n} depth={depth} failing={fails}"), 0, move || buffer(bound, n, depth, fails)));
    }
    for depth in t.pick(vec![7usize], vec![9]) {
        v.push(Scenario::new(format!("spawn-ready depth={depth}"), 1, move || spawn_ready(depth)));
    }
    let depth = t.pick(8, 10);
    for k in 0..N_OTHER {
        v.push(Scenario::new(format!("others #{k} depth={depth}"), 1, move || ambient(k, depth)));
    }
    v.extend(same_with_tracing(t));
    v
}
