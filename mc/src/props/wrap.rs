//! Reconnect (C21), SpawnReady (C22), Steer (C23), Filter (C24).
use crate::core::{choose, deviate, Scenario};
use crate::drive::{classify, Er, Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvSvc, Gate, Rd, Rsp, O, R};
use crate::sched::settle;
use crate::{check, fail, obs, Prop, Tier};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tower::filter::{AsyncFilter, AsyncFilterLayer, AsyncPredicate, Filter, FilterLayer, Predicate};
use tower::reconnect::Reconnect;
use tower::spawn_ready::{SpawnReady, SpawnReadyLayer};
use tower::steer::{Picker, Steer};
use tower::{BoxError, Layer, Service};

pub const C21: Prop = Prop { id: "C21", scenarios: c21, assumptions: &["the caller respects the poll_ready/call contract", "connections which fail during their readiness poll are bounded by the deviation bound (a maker whose services always fail at once makes the poll itself endless)"] };
pub const C22: Prop = Prop { id: "C22", scenarios: c22, assumptions: &["a service is not used after its readiness poll failed", "single-threaded tokio runtime"] };
pub const C23: Prop = Prop { id: "C23", scenarios: c23, assumptions: &["the caller respects the poll_ready/call contract", "the picker returns a valid index"] };
pub const C24: Prop = Prop { id: "C24", scenarios: c24, assumptions: &["the caller respects the poll_ready/call contract"] };

// ------------------------------------------------------------------------------------------ C21

const CONN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], dev: true, revoke: true, ..env::ALWAYS };
const MAKER: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
const TARGET: u32 = 4711;

thread_local! { static CONNS: RefCell<Vec<usize>> = const { RefCell::new(vec![]) }; }
#[derive(Debug)]
struct Mk(EnvSvc);
#[derive(Debug)]
struct MkFut(EnvFut);
impl Service<u32> for Mk {
    type Response = EnvSvc;
    type Error = EnvErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, t: u32) -> MkFut {
        check!(t == TARGET, "a connection to {t} was requested instead of {TARGET}");
        let active = env::w(|w| w.futs.iter().any(|f| f.svc == self.0.id && !f.dropped && !f.taken));
        check!(!active, "a second connection attempt was started while one is active");
        for c in CONNS.with(|c| c.borrow().clone()) {
            let (d, seen) = env::w(|w| (w.svcs[c].dropped, w.svcs[c].seen));
            check!(d || matches!(seen, Rd::Failed(_)), "a connection attempt was started although connection {c} is healthy ({seen:?})");
        }
        MkFut(self.0.call_env(t))
    }
}
impl Future for MkFut {
    type Output = Result<EnvSvc, EnvErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.0).poll(cx) {
            Poll::Ready(Ok(_)) => {
                let s = env::svc(CONN);
                obs!("connected: {}", s.id);
                CONNS.with(|c| c.borrow_mut().push(s.id));
                Poll::Ready(Ok(s))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

fn c21(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (init, depth, dev) in t.pick(vec![(false, 8, 4), (true, 8, 4), (false, 11, 2), (true, 11, 2), (false, 13, 1)], vec![(false, 10, 4), (true, 10, 4), (false, 12, 3), (true, 12, 3), (false, 16, 1)]) {
        v.push(Scenario::new(format!("initial connection={init} depth={depth}"), dev, move || c21_ops(init, depth, false)));
    }
    for (depth, dev) in t.pick(vec![(70, 2), (24, 3)], vec![(120, 2), (40, 3)]) {
        v.push(Scenario::new(format!("long run depth={depth}"), dev, move || c21_ops(false, depth, true)));
    }
    v
}

/// `long`: one request after the other over a healthy connection, over connections which break again and
/// again, or with connection attempts which fail often; everything else is a deviation.
async fn c21_ops(init: bool, depth: usize, long: bool) {
    CONNS.with(|c| c.borrow_mut().clear());
    let mk = Mk(env::svc(if long { Cfg { dev: true, ..MAKER } } else { MAKER }));
    let mkid = mk.0.id;
    let flaky = if long { choose(4, "healthy, connections break, attempts fail, both") } else { 0 };
    let attempt = |k: usize| {
        if flaky & 2 != 0 && k % 4 != 3 {
            env::w(|w| w.svcs[mkid].cfg.call = if k % 2 == 0 { &[O::Err, O::Ok, O::Pend] } else { &[O::Pend, O::Ok, O::Err] });
            env::w(|w| w.svcs[mkid].cfg.fin = &[O::Err, O::Ok]);
        } else {
            env::w(|w| w.svcs[mkid].cfg.call = MAKER.call);
        }
    };
    attempt(0);
    let rc: Reconnect<Mk, u32> = if init {
        let s = env::svc(CONN);
        CONNS.with(|c| c.borrow_mut().push(s.id));
        Reconnect::with_connection(s, mk, TARGET)
    } else {
        Reconnect::new(mk, TARGET)
    };
    let mut h = Handle::new(rc);
    // connect errors since the last call: the next call must report one of them
    let mut errs: Vec<EnvErr> = vec![];
    let mut resps: Vec<(Resp<_>, Result<usize, Vec<EnvErr>>)> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Call,
        PollF(usize),
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let spurious = matches!(h.st, H::Waiting | H::Ready);
        match h.st {
            H::Idle | H::Failed => ops.push(Op::Poll),
            H::Waiting if h.flag.is() => ops.push(Op::Poll),
            H::Ready => ops.push(Op::Call),
            _ => {}
        }
        for (i, (r, _)) in resps.iter().enumerate() {
            let r: &Resp<_> = r;
            if r.due() {
                ops.push(Op::PollF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let op = if long {
            // answers, the caller's next step, the environment
            ops.sort_by_key(|o| match o {
                Op::PollF(_) => 0,
                Op::Poll | Op::Call => 1,
                Op::Env(_) => 2,
            });
            if spurious {
                ops.push(Op::Poll);
            }
            ops[deviate(ops.len(), "op")]
        } else if spurious && deviate(2, "spurious poll") == 1 {
            Op::Poll
        } else {
            ops[choose(ops.len(), "op")]
        };
        obs!("{op:?}");
        match op {
            Op::Poll => {
                let attempts: Vec<usize> = env::w(|w| w.futs.iter().enumerate().filter(|(_, f)| f.svc == mkid && f.taken).map(|(i, _)| i).collect());
                let n = env::n_calls();
                let r = h.poll_ready::<u32>();
                let conn = current();
                for k in n..env::n_calls() {
                    check!(env::w(|w| w.calls[k].0) == mkid, "a readiness poll called a connection");
                }
                for c in CONNS.with(|c| c.borrow().clone()) {
                    let (seen, d) = env::w(|w| (w.svcs[c].seen, w.svcs[c].dropped));
                    check!(!matches!(seen, Rd::Failed(_)) || d, "failed connection {c} was kept");
                }
                // failed attempts observed by this poll
                let failed: Vec<usize> = env::w(|w| {
                    w.futs.iter().enumerate().filter(|(i, f)| f.svc == mkid && f.taken && !attempts.contains(i) && matches!(f.res, Some(Err(_)))).map(|(i, _)| i).collect()
                });
                let mks = env::w(|w| (w.svcs[mkid].state, w.svcs[mkid].seen));
                match &r {
                    Poll::Ready(Ok(())) => {
                        if let [f] = failed[..] {
                            errs.push(EnvErr { ready: false, of: f });
                        } else if errs.is_empty() || conn.is_some() {
                            check!(failed.is_empty(), "{} connect errors in one poll", failed.len());
                            let c = match conn {
                                Some(c) => c,
                                None => fail!("ready without a connection"),
                            };
                            check!(env::w(|w| w.svcs[c].seen) == Rd::Ready, "ready although connection {c} is not");
                        }
                    }
                    Poll::Ready(Err(e)) => {
                        check!(classify(e) == Er::Env(EnvErr { ready: true, of: mkid }) && matches!(mks.1, Rd::Failed(_)), "readiness failed with {e:?}; the maker is {mks:?}");
                        check!(conn.is_none() && failed.is_empty(), "readiness failed although a connection exists");
                    }
                    Poll::Pending => {
                        check!(failed.is_empty(), "a failed connection attempt left the service pending");
                        let attempt = env::w(|w| w.futs.iter().any(|f| f.svc == mkid && !f.dropped && !f.done));
                        let waits = match conn {
                            Some(c) => env::w(|w| w.svcs[c].seen == Rd::Pending && w.svcs[c].state == Rd::Pending),
                            None => attempt || mks == (Rd::Pending, Rd::Pending),
                        };
                        check!(h.flag.is() || waits, "pending without waiting for anything (connection {conn:?}, maker {mks:?})");
                    }
                }
                obs!("  -> {r:?}");
            }
            Op::Call => {
                let n = env::n_calls();
                let req = 1 + resps.len() as u32;
                let r = h.call(req);
                let made = env::n_calls() - n;
                let want = match errs.is_empty() {
                    false => {
                        check!(made == 0, "a call which must report the connect error reached a connection");
                        Err(std::mem::take(&mut errs))
                    }
                    true => {
                        check!(made == 1, "one call made {made} inner calls");
                        let (s, f) = env::w(|w| w.calls[n]);
                        check!(Some(s) == current() && env::w(|w| w.futs[f].req) == req, "request altered or sent to {s}, the connection is {:?}", current());
                        Ok(f)
                    }
                };
                resps.push((r, want));
                attempt(env::w(|w| w.svcs[mkid].ncalls));
                if let (true, Some(c)) = (flaky & 1 != 0 && resps.len() % 3 != 0, current()) {
                    obs!("connection {c} breaks");
                    env::w(|w| w.svcs[c].state = Rd::Failed(c as u32));
                }
            }
            Op::PollF(i) => {
                let (r, want) = &mut resps[i];
                r.poll();
                let got = r.out.as_ref().map(|o| o.as_ref().map(|r| *r).map_err(classify));
                let want = match want {
                    // any of the failed attempts
                    Err(es) => match got {
                        Some(Err(Er::Env(e))) if es.contains(&e) => got,
                        _ => Some(Err(Er::Env(es[0]))),
                    },
                    Ok(f) => env::expected(*f).map(|x| x.map_err(Er::Env)),
                };
                check!(got == want, "response {got:?}, expected {want:?}");
            }
            Op::Env(a) => {
                let waiting = h.st == H::Waiting && !h.flag.is();
                let relevant = match a {
                    env::Act::Wake(s) => Some(s) == current() || (s == mkid && current().is_none()),
                    env::Act::Complete(f) => env::w(|w| w.futs[f].svc == mkid),
                    _ => false,
                };
                env::act(a);
                check!(!(waiting && relevant && !h.flag.is()), "the waiting caller was not woken by {a:?}");
            }
        }
    }
}
/// the connection alive
fn current() -> Option<usize> {
    let v: Vec<usize> = CONNS.with(|c| c.borrow().iter().copied().filter(|c| !env::w(|w| w.svcs[*c].dropped)).collect());
    check!(v.len() <= 1, "{} connections are kept at the same time", v.len());
    v.first().copied()
}

// ------------------------------------------------------------------------------------------ C22

thread_local! {
    static IN_POLL: Cell<bool> = const { Cell::new(false) };
    static PANICKED: Cell<bool> = const { Cell::new(false) };
}
#[derive(Debug)]
struct Bg(EnvSvc);
impl Service<u32> for Bg {
    type Response = Rsp;
    type Error = EnvErr;
    type Future = EnvFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        if !IN_POLL.get() && deviate(2, "panic in the background") == 1 {
            obs!("inner panics");
            PANICKED.set(true);
            panic!("inner service panics while becoming ready");
        }
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, r: u32) -> EnvFut {
        self.0.call_env(r)
    }
}
fn c22(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (depth, dev) in t.pick(vec![(9, 2), (8, 3), (11, 0)], vec![(10, 2), (9, 4), (13, 0)]) {
        v.push(Scenario::new(format!("depth={depth}"), dev, move || c22_ops(depth, false)));
    }
    for (depth, dev) in t.pick(vec![(80, 2), (20, 3)], vec![(240, 2), (50, 3)]) {
        v.push(Scenario::new(format!("long run depth={depth}"), dev, move || c22_ops(depth, true)));
    }
    v
}
/// `long`: one request after the other, the service becoming ready in the background every other time;
/// everything else is a deviation.
async fn c22_ops(depth: usize, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], revoke: true, ..env::ALWAYS };
    IN_POLL.set(false);
    PANICKED.set(false);
    let inner = Bg(env::svc(Cfg { dev: long, ..IN }));
    let id = inner.0.id;
    let s = if choose(2, "construction") == 0 { SpawnReady::new(inner) } else { SpawnReadyLayer::new().layer(inner) };
    let mut h = Handle::new(s);
    let mut resps: Vec<(Resp<_>, usize)> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Call,
        Run,
        Drop,
        PollF(usize),
        Env(env::Act),
    }
    // something happened since the runtime last ran
    let mut dirty = false;
    for _ in 0..depth {
        let mut ops = vec![];
        match h.st {
            H::Idle => ops.push(Op::Poll),
            H::Waiting if h.flag.is() => ops.push(Op::Poll),
            H::Ready => ops.push(Op::Call),
            _ => {}
        }
        if dirty {
            ops.push(Op::Run);
        }
        for (i, (r, _)) in resps.iter().enumerate() {
            let r: &Resp<_> = r;
            if r.due() {
                ops.push(Op::PollF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        let mut sp = vec![];
        if matches!(h.st, H::Waiting | H::Ready) {
            sp.push(Op::Poll);
        }
        if h.alive() {
            sp.push(Op::Drop);
        }
        if ops.is_empty() && sp.is_empty() {
            break;
        }
        let op = if long {
            ops.sort_by_key(|o| match o {
                Op::PollF(_) => 0,
                Op::Poll | Op::Call => 1,
                Op::Env(_) => 2,
                _ => 3,
            });
            ops.extend(sp);
            ops[deviate(ops.len(), "op")]
        } else {
            let d = if ops.is_empty() { 0 } else { deviate(sp.len() + 1, "spurious poll or drop") };
            if ops.is_empty() { sp[choose(sp.len(), "op")] } else if d > 0 { sp[d - 1] } else { ops[choose(ops.len(), "op")] }
        };
        obs!("{op:?}");
        match op {
            Op::Poll => {
                IN_POLL.set(true);
                let r = h.poll_ready();
                IN_POLL.set(false);
                dirty = true;
                let (st, seen) = env::w(|w| (w.svcs[id].state, w.svcs[id].seen));
                match &r {
                    Poll::Ready(Ok(())) => check!(seen == Rd::Ready, "ready although the inner service said {seen:?}"),
                    Poll::Ready(Err(e)) => {
                        if PANICKED.get() {
                            check!(classify(e) == Er::Other, "a panic was reported as {e:?}");
                        } else {
                            check!(matches!(seen, Rd::Failed(_)) && classify(e) == Er::Env(EnvErr { ready: true, of: id }), "readiness failed with {e:?}, the inner service said {seen:?}");
                        }
                    }
                    Poll::Pending => {
                        let _ = st;
                    }
                }
                obs!("  -> {:?}", r.map(|r| r.map_err(|e| classify(&e))));
            }
            Op::Call => {
                let n = env::n_calls();
                let req = 5 + resps.len() as u32;
                let r = h.call(req);
                check!(env::n_calls() == n + 1, "one call made {} inner calls", env::n_calls() - n);
                let (s, f) = env::w(|w| w.calls[n]);
                check!(s == id && env::w(|w| w.futs[f].req) == req, "request altered or misdirected");
                resps.push((r, f));
                if long {
                    env::w(|w| w.svcs[id].cfg.ready = if resps.len() % 2 == 0 { IN.ready } else { &[R::Pend, R::Ready, R::Err] });
                }
            }
            Op::Run => {
                settle().await;
                dirty = false;
            }
            Op::Drop => h.drop_svc(),
            Op::PollF(i) => {
                let (r, f) = &mut resps[i];
                r.poll();
                let got = r.out.as_ref().map(|o| o.as_ref().map(|r| *r).map_err(classify));
                let want = env::expected(*f).map(|x| x.map_err(Er::Env));
                check!(got == want, "response {got:?}, expected {want:?}");
            }
            Op::Env(a) => {
                env::act(a);
                dirty = true;
            }
        }
        if matches!(op, Op::Drop) {
            settle().await;
            dirty = false;
            check!(env::w(|w| w.svcs[id].dropped), "the inner service survives the drop of the spawn-ready service");
        }
        if matches!(op, Op::Run) && h.st == H::Waiting {
            let (st, seen) = env::w(|w| (w.svcs[id].state, w.svcs[id].seen));
            if PANICKED.get() {
                check!(h.flag.is(), "the caller was not woken after the background task panicked");
            } else {
                check!(st == seen && seen != Rd::Unknown, "the background task did not drive the inner service: it is {st:?}, last asked {seen:?}");
                if seen != Rd::Pending {
                    check!(h.flag.is(), "the caller was not woken after the inner service became {seen:?}");
                }
            }
        }
    }
    // finish: whatever happens, a waiting caller gets an answer once the inner service has one
    if h.st == H::Waiting {
        settle().await;
        for _ in 0..4 {
            if h.flag.is() || PANICKED.get() {
                break;
            }
            if env::w(|w| w.svcs[id].state) == Rd::Pending {
                env::wake_svc(id, R::Ready);
            }
            settle().await;
        }
        let seen = env::w(|w| w.svcs[id].seen);
        if PANICKED.get() || seen != Rd::Pending {
            check!(h.flag.is(), "the caller waits for ever");
        }
        IN_POLL.set(true);
        let r = h.poll_ready();
        IN_POLL.set(false);
        check!(r.is_ready() || env::w(|w| w.svcs[id].seen) == Rd::Pending, "still pending after the inner service became ready");
    }
    check!(env::w(|w| w.svcs.len()) == 1, "the inner service was cloned");
}

// ------------------------------------------------------------------------------------------ C23

thread_local! { static PICKS: RefCell<(usize, Vec<(u32, usize)>)> = const { RefCell::new((0, vec![])) }; }
#[derive(Clone, Debug)]
struct Pick;
impl Picker<EnvSvc, u32> for Pick {
    fn pick(&mut self, r: &u32, services: &[EnvSvc]) -> usize {
        let n = PICKS.with(|p| p.borrow().0);
        let roots: Vec<usize> = env::w(|w| services.iter().map(|s| w.svcs[s.id].root).collect());
        check!(roots == (0..n).collect::<Vec<_>>(), "the picker sees services {roots:?} instead of all {n} in order");
        let i = choose(n, "pick");
        PICKS.with(|p| p.borrow_mut().1.push((*r, services[i].id)));
        i
    }
}
fn c23(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, clones, depth, closure, heal) in t.pick(
        vec![(1usize, 2usize, 11, false, false), (2, 1, 14, false, false), (2, 2, 9, false, false), (3, 1, 14, false, false), (3, 2, 9, false, false), (3, 1, 12, true, false), (1, 1, 12, false, true), (2, 1, 10, false, true), (3, 1, 9, false, true)],
        vec![(1, 3, 11, false, false), (2, 2, 10, false, false), (2, 3, 9, false, false), (3, 1, 17, false, false), (3, 2, 10, false, false), (4, 1, 16, false, false), (3, 1, 15, true, false), (1, 1, 15, false, true), (2, 1, 13, false, true), (2, 2, 9, false, true), (3, 1, 11, false, true)],
    ) {
        v.push(Scenario::new(format!("services={n} clones<={clones} depth={depth} closure={closure} transient-errors={heal}"), 1, move || async move {
            PICKS.with(|p| *p.borrow_mut() = (n, vec![]));
            const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok], ..env::ALWAYS };
            let svcs: Vec<EnvSvc> = (0..n).map(|_| env::svc(Cfg { heal, ..IN })).collect();
            if closure {
                let f = move |r: &u32, s: &[EnvSvc]| Pick.pick(r, s);
                c23_ops(Steer::new(svcs, f), n, clones, depth, heal).await
            } else {
                c23_ops(Steer::new(svcs, Pick), n, clones, depth, heal).await
            }
        }));
    }
    // more services, mostly ready ones
    for (n, clones, depth, dev) in t.pick(vec![(6usize, 1usize, 7, 3), (5, 2, 7, 2)], vec![(6, 1, 9, 3), (5, 2, 8, 3), (12, 1, 7, 2), (70, 1, 5, 1)]) {
        v.push(Scenario::new(format!("services={n} clones<={clones} depth={depth} mostly ready"), dev, move || async move {
            PICKS.with(|p| *p.borrow_mut() = (n, vec![]));
            const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok], dev: true, ..env::ALWAYS };
            let svcs: Vec<EnvSvc> = (0..n).map(|_| env::svc(IN)).collect();
            c23_ops(Steer::new(svcs, Pick), n, clones, depth, false).await
        }));
    }
    v
}
async fn c23_ops<P: Picker<EnvSvc, u32> + Clone>(s: Steer<EnvSvc, P, u32>, n: usize, clones: usize, depth: usize, heal: bool) {
    // handle and the ids of its services
    let mut hs = vec![(Handle::new(s), (0..n).collect::<Vec<usize>>())];
    let mut reqs = 0u32;
    let mut done: Vec<(Resp<EnvFut>, usize)> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        Clone(usize),
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        for (i, (h, _)) in hs.iter().enumerate() {
            match h.st {
                H::Idle => ops.push(Op::Poll(i)),
                H::Failed if heal => ops.push(Op::Poll(i)),
                H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                H::Ready => {
                    ops.push(Op::Call(i));
                    sp.push(Op::Poll(i));
                }
                H::Waiting => sp.push(Op::Poll(i)),
                _ => {}
            }
            if hs.len() < clones {
                ops.push(Op::Clone(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let d = deviate(sp.len() + 1, "spurious poll");
        let op = if d > 0 { sp[d - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let (h, ids) = &mut hs[i];
                let r = h.poll_ready();
                let st: Vec<(Rd, Rd)> = env::w(|w| ids.iter().map(|s| (w.svcs[*s].state, w.svcs[*s].seen)).collect());
                match r {
                    Poll::Ready(Ok(())) => check!(st.iter().all(|s| s.1 == Rd::Ready), "ready although not all services have reported ready: {st:?}"),
                    Poll::Ready(Err(e)) => check!(e.ready && ids.contains(&e.of) && matches!(env::w(|w| w.svcs[e.of].seen), Rd::Failed(_)), "failed with {e:?}, services {st:?}"),
                    Poll::Pending => check!(st.iter().any(|s| *s == (Rd::Pending, Rd::Pending)), "pending although no service is: {st:?}"),
                }
                obs!("  -> {r:?}");
            }
            Op::Call(i) => {
                let k = env::n_calls();
                reqs += 1;
                let picks = PICKS.with(|p| p.borrow().1.len());
                let (h, ids) = &mut hs[i];
                let r = h.call(reqs);
                check!(env::n_calls() == k + 1, "one request was sent {} times", env::n_calls() - k);
                let (s, f) = env::w(|w| w.calls[k]);
                let p = PICKS.with(|p| p.borrow().1[picks..].to_vec());
                check!(p.last() == Some(&(reqs, s)), "request {reqs} went to service {s}, the picker said {p:?}");
                check!(env::w(|w| w.futs[f].req) == reqs && ids.contains(&s), "request altered or sent to a service of another clone");
                done.push((r, f));
                let (r, f) = done.last_mut().unwrap();
                check!(r.poll() && r.out == env::expected(*f), "response altered: {:?}", r.out);
            }
            Op::Clone(i) => {
                let before = env::w(|w| w.svcs.len());
                let h = hs[i].0.dup();
                let after = env::w(|w| w.svcs.len());
                check!(after == before + n, "cloning {n} services created {}", after - before);
                hs.push((h, (before..after).collect()));
            }
            Op::Env(a) => {
                let waiting: Vec<bool> = hs.iter().map(|(h, _)| h.st == H::Waiting && !h.flag.is()).collect();
                env::act(a);
                if let env::Act::Wake(s) = a {
                    for (i, (h, ids)) in hs.iter().enumerate() {
                        if waiting[i] && ids.contains(&s) && !h.flag.is() {
                            let any = env::w(|w| ids.iter().any(|s| w.svcs[*s].seen == Rd::Pending && w.svcs[*s].state == Rd::Pending));
                            check!(any, "handle {i} was not woken although none of its services is pending any more");
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C24

#[derive(Debug, Clone, Copy, PartialEq)]
struct PredErr(u32);
impl std::fmt::Display for PredErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for PredErr {}
thread_local! {
    /// request -> (decision, gate)
    static DEC: RefCell<Vec<(u32, Result<u32, PredErr>, Option<usize>)>> = const { RefCell::new(vec![]) };
    static RAN: RefCell<u32> = const { RefCell::new(0) };
}
#[derive(Clone, Debug)]
struct Pred;
thread_local! { static C24_LONG: RefCell<bool> = const { RefCell::new(false) }; }
/// A decision; in long runs, anything but the first alternative is a deviation.
fn c24_choose(n: usize, l: &str) -> usize {
    if C24_LONG.with(|l| *l.borrow()) {
        deviate(n, l)
    } else {
        choose(n, l)
    }
}
fn decide(r: u32) -> Result<u32, PredErr> {
    match c24_choose(3, "predicate: accept, reject, rewrite") {
        0 => Ok(r),
        1 => Err(PredErr(r)),
        _ => Ok(r + 500),
    }
}
impl Predicate<u32> for Pred {
    type Request = u32;
    fn check(&mut self, r: u32) -> Result<u32, BoxError> {
        let d = decide(r);
        obs!("check {r} -> {d:?}");
        DEC.with(|l| l.borrow_mut().push((r, d, None)));
        d.map_err(Into::into)
    }
}
struct CheckFut(Gate, Result<u32, PredErr>);
impl Future for CheckFut {
    type Output = Result<u32, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let d = self.1;
        Pin::new(&mut self.0).poll(cx).map(|()| d.map_err(Into::into))
    }
}
impl AsyncPredicate<u32> for Pred {
    type Future = CheckFut;
    type Request = u32;
    fn check(&mut self, r: u32) -> CheckFut {
        let d = decide(r);
        let g = env::gate(c24_choose(2, "check is delayed") == 0, r);
        obs!("check {r} -> {d:?}");
        DEC.with(|l| l.borrow_mut().push((r, d, Some(g.id))));
        CheckFut(g, d)
    }
}
fn c24(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (reqs, handles, depth, dev) in t.pick(vec![(2u32, 1, 9, 1), (3, 2, 8, 0), (2, 2, 8, 1)], vec![(2, 1, 11, 2), (3, 2, 9, 0), (3, 1, 10, 1), (2, 2, 10, 1)]) {
        for asynch in [false, true] {
            v.push(Scenario::new(format!("async={asynch} requests={reqs} handles={handles} depth={depth}"), dev, move || async move {
                C24_LONG.with(|l| *l.borrow_mut() = false);
                c24_run(asynch, reqs, handles, depth).await
            }));
        }
    }
    // one request after the other, up to `open` at a time; everything else is a deviation
    for (reqs, handles, dev) in t.pick(vec![(40u32, 1, 2), (12, 2, 2), (5, 1, 3)], vec![(150, 1, 2), (24, 3, 2), (8, 2, 3), (5, 1, 4)]) {
        for asynch in [false, true] {
            v.push(Scenario::new(format!("async={asynch} long run: requests={reqs} handles={handles}"), dev, move || async move {
                C24_LONG.with(|l| *l.borrow_mut() = true);
                c24_run(asynch, reqs, handles, 8 * reqs as usize).await
            }));
        }
    }
    v
}
async fn c24_run(asynch: bool, reqs: u32, handles: usize, depth: usize) {
    let long = C24_LONG.with(|l| *l.borrow());
    let inner = env::svc(Cfg { ready: &[R::Ready, R::Pend], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], dev: long, ..env::ALWAYS });
    let c = deviate(4, "construction");
    if asynch && c == 3 {
        c24_ops(AsyncFilter::<EnvSvc, Pred>::layer(Pred).layer(inner), |f| f.get_ref().id, asynch, reqs, handles, depth, long).await
    } else if asynch {
        let f = match c {
            0 => AsyncFilter::new(inner, Pred),
            1 => AsyncFilterLayer::new(Pred).layer(inner),
            _ => tower::ServiceExt::<u32>::filter_async::<_, u32>(inner, Pred),
        };
        c24_ops(f, |f| f.get_ref().id, asynch, reqs, handles, depth, long).await
    } else {
        let f = match c {
            0 => Filter::new(inner, Pred),
            1 => FilterLayer::new(Pred).layer(inner),
            2 => tower::ServiceExt::<u32>::filter::<_, u32>(inner, Pred),
            _ => Filter::<EnvSvc, Pred>::layer(Pred).layer(inner),
        };
        c24_ops(f, |f| f.get_ref().id, asynch, reqs, handles, depth, long).await
    }
}
struct FReq<F: Future> {
    r: Resp<F>,
    req: u32,
    /// the instance that was awaited for this request
    inst: usize,
    fid: Option<usize>,
    dropped: bool,
}
async fn c24_ops<S>(s: S, inst: fn(&S) -> usize, asynch: bool, reqs: u32, handles: usize, depth: usize, long: bool)
where
    S: Service<u32, Response = Rsp, Error = BoxError> + Clone,
{
    DEC.with(|l| l.borrow_mut().clear());
    let mut hs = vec![Handle::new(s)];
    let mut rs: Vec<FReq<S::Future>> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        Clone(usize),
        PollF(usize),
        DropF(usize),
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        for (i, h) in hs.iter().enumerate() {
            match h.st {
                H::Idle if (rs.len() as u32) < reqs => ops.push(Op::Poll(i)),
                H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                H::Ready if (rs.len() as u32) < reqs => ops.push(Op::Call(i)),
                _ => {}
            }
            if hs.len() < handles {
                ops.push(Op::Clone(i));
            }
        }
        for (i, r) in rs.iter().enumerate() {
            if r.r.due() {
                ops.push(Op::PollF(i));
            } else if r.r.live() {
                sp.push(Op::PollF(i));
            }
            if r.r.live() {
                sp.push(Op::DropF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let op = if long {
            ops.sort_by_key(|o| match o {
                Op::Clone(_) => 0,
                Op::Call(_) => 1,
                Op::Poll(i) => 2 + (*i + rs.len()) % hs.len(),
                Op::PollF(_) => 20,
                Op::Env(_) => 21,
                Op::DropF(_) => 22,
            });
            // answers first when requests pile up
            if rs.iter().filter(|r| r.r.due()).count() >= 3 {
                let at = ops.iter().position(|o| matches!(o, Op::PollF(_))).unwrap_or(0);
                ops.rotate_left(at);
            }
            ops.extend(sp);
            ops[deviate(ops.len(), "op")]
        } else {
            let d = deviate(sp.len() + 1, "spurious poll or drop");
            if d > 0 {
                sp[d - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("{op:?}");
        let n = env::n_calls();
        let mut active = usize::MAX;
        match op {
            Op::Poll(i) => {
                let r = hs[i].poll_ready();
                let st = env::w(|w| w.svcs[inst(hs[i].svc.as_ref().unwrap())].seen);
                check!(matches!((&r, st), (Poll::Ready(Ok(())), Rd::Ready) | (Poll::Pending, Rd::Pending)), "readiness {r:?} with the inner service {st:?}");
            }
            Op::Call(i) => {
                let id = inst(hs[i].svc.as_ref().unwrap());
                let req = rs.len() as u32 + 1;
                let k = DEC.with(|l| l.borrow().len());
                let r = hs[i].call(req);
                check!(DEC.with(|l| l.borrow().len() == k + 1 && l.borrow()[k].0 == req), "the predicate was not asked exactly once about request {req}");
                check!(DEC.with(|l| l.borrow()[k].2.is_some()) == asynch, "the {} predicate was asked about request {req}", if asynch { "synchronous" } else { "asynchronous" });
                rs.push(FReq { r, req, inst: id, fid: None, dropped: false });
                active = rs.len() - 1;
            }
            Op::Clone(i) => {
                let h = hs[i].dup();
                hs.push(h);
            }
            Op::PollF(i) => {
                rs[i].r.poll();
                active = i;
            }
            Op::DropF(i) => {
                rs[i].r.drop_fut();
                rs[i].dropped = true;
            }
            Op::Env(a) => {
                let waiting: Vec<usize> = (0..rs.len()).filter(|i| rs[*i].r.live() && rs[*i].r.polled && !rs[*i].r.flag.is()).collect();
                env::act(a);
                for i in waiting {
                    let g = DEC.with(|l| l.borrow().iter().find(|d| d.0 == rs[i].req).unwrap().2);
                    let relevant = match a {
                        env::Act::Complete(f) => rs[i].fid == Some(f),
                        env::Act::Open(x) => g == Some(x),
                        _ => false,
                    };
                    check!(!relevant || rs[i].r.flag.is(), "request {} was not woken by {a:?}", rs[i].req);
                }
            }
        }
        // inner calls made by this step
        for k in n..env::n_calls() {
            let (s, f) = env::w(|w| w.calls[k]);
            check!(active != usize::MAX, "an inner call was made by {op:?}");
            let r = &mut rs[active];
            let (_, d, _) = DEC.with(|l| *l.borrow().iter().find(|d| d.0 == r.req).unwrap());
            check!(d == Ok(env::w(|w| w.futs[f].req)), "inner call with {} for request {}, the predicate decided {d:?}", env::w(|w| w.futs[f].req), r.req);
            check!(r.fid.is_none(), "request {} was sent twice", r.req);
            check!(s == r.inst, "request {} used instance {s}, readiness was awaited on {}", r.req, r.inst);
            r.fid = Some(f);
        }
        for r in &rs {
            let (_, d, g) = DEC.with(|l| *l.borrow().iter().find(|d| d.0 == r.req).unwrap());
            let open = g.map_or(true, |g| env::w(|w| w.gates[g].open));
            if r.dropped {
                if let Some(g) = g {
                    check!(env::w(|w| w.gates[g].dropped), "the check survives the dropped request");
                }
                continue;
            }
            if matches!(op, Op::PollF(i) if rs[i].req == r.req) || r.r.out.is_some() {
                let got = r.r.out.as_ref().map(|o| match o {
                    Ok(x) => Ok(*x),
                    Err(e) => Err((classify(e), e.downcast_ref::<PredErr>().copied())),
                });
                let want = match (open, d) {
                    (false, _) => None,
                    (true, Err(p)) => Some(Err((Er::Other, Some(p)))),
                    (true, Ok(_)) => match r.fid {
                        None => fail!("request {} was accepted but not sent", r.req),
                        Some(f) => env::expected(f).map(|x| x.map_err(|e| (Er::Env(e), None))),
                    },
                };
                check!(got == want, "request {} answered {got:?}, expected {want:?}", r.req);
            }
        }
    }
    let _ = RAN.with(|r| *r.borrow());
}
