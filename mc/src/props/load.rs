//! Load measurement: PendingRequests (C19) and PeakEwma (C20).
use crate::core::{choose, deviate, Scenario};
use crate::drive::{Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvSvc, Rd, Rsp, O, R};
use crate::props::balance::{dq_push, dq_reset, Disc, Item};
use crate::sched::advance;
use crate::{check, fail, obs, Prop, Tier};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::discover::{Change, Discover};
use tower::load::completion::{CompleteOnResponse, TrackCompletion, TrackCompletionFuture};
use tower::load::{peak_ewma, pending_requests, Load, PeakEwma, PeakEwmaDiscover, PendingRequests, PendingRequestsDiscover};
use tower::Service;

pub const C19: Prop = Prop { id: "C19", scenarios: c19, assumptions: &["the caller respects the poll_ready/call contract", "the count is read from the metric's Debug form"] };
pub const C20: Prop = Prop { id: "C20", scenarios: c20, assumptions: &["virtual time with whole-millisecond steps", "values compared with a relative tolerance of 1e-9", "reading the load is itself an update: the decay up to the reading is applied then"] };

const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready], call: &[O::Pend, O::Ok, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };

/// Always ready, and every response is outstanding until the environment finishes it.
const BUSY: Cfg = Cfg { ready: &[R::Ready], call: &[O::Pend], ..IN };

/// Keeps the handle together with the response.
#[derive(Clone, Debug)]
pub struct Keep;
impl<Hd> TrackCompletion<Hd, Rsp> for Keep {
    type Output = (Hd, Rsp);
    fn track_completion(&self, handle: Hd, value: Rsp) -> (Hd, Rsp) {
        (handle, value)
    }
}
pub trait Out<Hd> {
    fn rsp(&self) -> Rsp;
    fn holds(&self) -> bool;
}
impl<Hd> Out<Hd> for Rsp {
    fn rsp(&self) -> Rsp {
        *self
    }
    fn holds(&self) -> bool {
        false
    }
}
impl<Hd> Out<Hd> for (Hd, Rsp) {
    fn rsp(&self) -> Rsp {
        self.1
    }
    fn holds(&self) -> bool {
        true
    }
}

/// The reference: what the load of one endpoint must be.
trait Ref {
    fn new() -> Self;
    fn sent(&mut self, now: u64) -> u64;
    fn released(&mut self, token: u64, now: u64);
    fn read(&mut self, now: u64) -> f64;
}
struct CountRef(i64);
impl Ref for CountRef {
    fn new() -> Self {
        CountRef(0)
    }
    fn sent(&mut self, _: u64) -> u64 {
        self.0 += 1;
        0
    }
    fn released(&mut self, _: u64, _: u64) {
        self.0 -= 1;
    }
    fn read(&mut self, _: u64) -> f64 {
        self.0 as f64
    }
}
const DEFAULT_MS: u64 = 6;
const DECAY_MS: u64 = 10;
struct EwmaRef {
    est: f64,
    at: u64,
    out: u32,
}
impl EwmaRef {
    fn update(&mut self, rtt_ms: u64, now: u64) {
        let rtt = rtt_ms as f64 * 1e6;
        if rtt > self.est {
            self.est = rtt;
        } else {
            let keep = (-((now - self.at) as f64) / DECAY_MS as f64).exp();
            self.est = rtt + (self.est - rtt) * keep;
        }
        self.at = now;
    }
}
impl Ref for EwmaRef {
    fn new() -> Self {
        EwmaRef { est: DEFAULT_MS as f64 * 1e6, at: 0, out: 0 }
    }
    fn sent(&mut self, now: u64) -> u64 {
        self.out += 1;
        now
    }
    fn released(&mut self, sent: u64, now: u64) {
        self.out -= 1;
        self.update(now - sent, now);
    }
    fn read(&mut self, now: u64) -> f64 {
        self.update(0, now);
        self.est * (1 + self.out) as f64
    }
}

fn number(dbg: String) -> f64 {
    let s: String = dbg.chars().filter(|c| c.is_ascii_digit() || matches!(c, '.' | 'e' | '-' | '+')).collect();
    // the letter e of a type name may precede the number
    let s = s.trim_start_matches(|c: char| !c.is_ascii_digit() && c != '-');
    match s.parse() {
        Ok(x) => x,
        Err(_) => fail!("load metric {dbg} is not a number"),
    }
}

struct Endpoint<S, M> {
    h: Handle<S>,
    inner: usize,
    m: M,
}
struct Req<F: std::future::Future> {
    r: Resp<F>,
    ep: usize,
    fid: usize,
    token: u64,
    /// still counted
    counted: bool,
}

async fn ops<S, F, O, Hd, M>(svcs: Vec<(S, usize)>, depth: usize, reqs: usize, steps: &'static [u64], read_always: bool, pre: usize, unit: u64)
where
    S: Service<u32, Response = O, Error = EnvErr, Future = F> + Load,
    S::Metric: std::fmt::Debug,
    F: std::future::Future<Output = Result<O, EnvErr>>,
    O: Out<Hd>,
    M: Ref,
{
    let mut eps: Vec<Endpoint<S, M>> = svcs.into_iter().map(|(s, inner)| Endpoint { h: Handle::new(s), inner, m: M::new() }).collect();
    let mut rs: Vec<Req<F>> = vec![];
    let mut now = 0u64;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        PollF(usize),
        DropF(usize),
        DropOut(usize),
        Adv(u64),
        Read(usize),
        Env(env::Act),
    }
    // requests already in flight, sent to the endpoints in turn, one per millisecond
    for k in 0..pre {
        let i = k % eps.len();
        check!(eps[i].h.poll_ready().is_ready(), "endpoint {i} is not ready although its service is");
        let n = env::n_calls();
        let r = eps[i].h.call(100 + k as u32);
        check!(env::n_calls() == n + 1, "one call made {} inner calls", env::n_calls() - n);
        let token = eps[i].m.sent(now);
        rs.push(Req { r, ep: i, fid: env::w(|w| w.calls[n].1), token, counted: true });
        if !steps.is_empty() {
            advance(unit).await;
            now += 1;
        }
    }
    let reqs = reqs + pre;
    for step in 0..depth + 1 {
        if read_always || step == depth {
            for i in 0..eps.len() {
                read(&mut eps, i, now, unit);
            }
        }
        if step == depth {
            break;
        }
        let mut ops = vec![];
        for (i, e) in eps.iter().enumerate() {
            match e.h.st {
                H::Idle => ops.push(Op::Poll(i)),
                H::Waiting if e.h.flag.is() => ops.push(Op::Poll(i)),
                H::Ready if rs.len() < reqs => ops.push(Op::Call(i)),
                _ => {}
            }
            if !read_always && now > 0 {
                ops.push(Op::Read(i));
            }
        }
        for (i, r) in rs.iter().enumerate() {
            if r.r.due() {
                ops.push(Op::PollF(i));
            }
            if r.r.fut.is_some() {
                ops.push(Op::DropF(i));
            }
            if matches!(&r.r.out, Some(Ok(o)) if o.holds()) {
                ops.push(Op::DropOut(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        ops.extend(steps.iter().map(|s| Op::Adv(*s)));
        if ops.is_empty() {
            break;
        }
        let op = ops[choose(ops.len(), "op")];
        obs!("t={now} {op:?}");
        match op {
            Op::Poll(i) => {
                let r = eps[i].h.poll_ready();
                let st = env::w(|w| w.svcs[eps[i].inner].seen);
                match (r, st) {
                    (Poll::Ready(Ok(())), Rd::Ready) | (Poll::Pending, Rd::Pending) => {}
                    (Poll::Ready(Err(e)), Rd::Failed(_)) if e == (EnvErr { ready: true, of: eps[i].inner }) => {}
                    (r, st) => fail!("readiness {r:?} with the inner service {st:?}"),
                }
            }
            Op::Call(i) => {
                let n = env::n_calls();
                let req = 10 + rs.len() as u32;
                let r = eps[i].h.call(req);
                check!(env::n_calls() == n + 1, "one call made {} inner calls", env::n_calls() - n);
                let (s, fid) = env::w(|w| w.calls[n]);
                check!(s == eps[i].inner && env::w(|w| w.futs[fid].req) == req, "request altered or misdirected");
                let token = eps[i].m.sent(now);
                rs.push(Req { r, ep: i, fid, token, counted: true });
            }
            Op::PollF(i) => {
                let keep = deviate(2, "keep the finished future") == 1;
                rs[i].r.poll_keep(keep);
                let got = rs[i].r.out.as_ref().map(|o| o.as_ref().map(|o| o.rsp()).map_err(|e| *e));
                let want = env::expected(rs[i].fid);
                check!(got == want, "response {got:?}, expected {want:?}");
                let holds = matches!(&rs[i].r.out, Some(Ok(o)) if o.holds());
                if got.is_some() && !holds {
                    release(&mut rs[i], &mut eps, now);
                }
            }
            Op::DropF(i) => {
                rs[i].r.drop_fut();
                if rs[i].r.out.is_none() {
                    release(&mut rs[i], &mut eps, now);
                }
            }
            Op::DropOut(i) => {
                rs[i].r.out = Some(Err(EnvErr { ready: false, of: 999 }));
                release(&mut rs[i], &mut eps, now);
            }
            Op::Adv(s) => {
                advance(s * unit).await;
                now += s;
            }
            Op::Read(i) => read(&mut eps, i, now, unit),
            Op::Env(a) => env::act(a),
        }
    }
}
fn release<S, F: std::future::Future, M: Ref>(r: &mut Req<F>, eps: &mut [Endpoint<S, M>], now: u64) {
    if r.counted {
        r.counted = false;
        eps[r.ep].m.released(r.token, now);
    }
}
fn read<S: Load, M: Ref>(eps: &mut [Endpoint<S, M>], i: usize, now: u64, unit: u64)
where
    S::Metric: std::fmt::Debug,
{
    let got = number(format!("{:?}", eps[i].h.svc.as_ref().unwrap().load()));
    let want = eps[i].m.read(now) * if unit > 1 { unit as f64 } else { 1.0 };
    obs!("  load {i} = {want:e}");
    let tol = 1e-9 * want.abs().max(got.abs()) + 1e-6;
    check!((got - want).abs() <= tol, "at {now}x{unit}ms endpoint {i} reports a load of {got}, expected {want}");
}

/// Build endpoints directly or through the discovery adapter.
fn through<D: Discover<Key = u8, Error = crate::props::balance::DiscErr> + Unpin>(d: D, n: usize, inner: Cfg) -> Vec<(D::Service, usize)> {
    let mut d = d;
    let w = futures_util::task::noop_waker();
    let mut v = vec![];
    for i in 0..n {
        let s = env::svc(inner);
        let id = s.id;
        dq_push(Item::Ins(i as u8, s));
        match Pin::new(&mut d).poll_discover(&mut Context::from_waker(&w)) {
            Poll::Ready(Some(Ok(Change::Insert(k, s)))) if k == i as u8 => v.push((s, id)),
            _ => fail!("the insertion of endpoint {i} did not come through"),
        }
    }
    v
}

fn c19(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (eps, reqs, depth, dev) in t.pick(vec![(1usize, 2usize, 9, 1), (2, 2, 8, 1), (1, 3, 8, 1), (2, 3, 7, 0)], vec![(1, 2, 11, 2), (2, 3, 10, 1), (1, 3, 10, 2), (1, 4, 9, 1)]) {
        for kind in 0..4 {
            let n = ["plain", "kept handle", "discovered", "discovered, kept handle"][kind];
            v.push(Scenario::new(format!("{n} endpoints={eps} requests={reqs} depth={depth}"), dev, move || c19_run(kind, eps, reqs, depth, 0)));
        }
    }
    // limits pass the load of what they limit on
    for (eps, reqs, depth) in t.pick(vec![(1usize, 2usize, 7), (2, 2, 6)], vec![(1, 2, 9), (2, 2, 8), (1, 3, 8)]) {
        for kind in 4..6 {
            let n = ["limited", "limited, kept handle"][kind - 4];
            v.push(Scenario::new(format!("{n} endpoints={eps} requests={reqs} depth={depth}"), 1, move || c19_run(kind, eps, reqs, depth, 0)));
        }
    }
    for (eps, pre, depth) in t.pick(vec![(1usize, 5usize, 4), (2, 7, 3), (1, 12, 3)], vec![(1, 5, 5), (2, 7, 4), (1, 12, 4), (1, 40, 3)]) {
        for kind in 0..2 {
            let n = ["plain", "kept handle"][kind];
            v.push(Scenario::new(format!("{n} endpoints={eps} in-flight={pre} depth={depth}"), 0, move || c19_run(kind, eps, 2, depth, pre)));
        }
    }
    v.push(Scenario::new("up to 65537 outstanding requests", 0, || crowd(PendingRequests::new(Quiet, CompleteOnResponse::default()), |s| number(format!("{:?}", s.load())), 1.0, 0.0)));
    v
}
/// A service whose responses stay outstanding.
struct Quiet;
impl Service<u32> for Quiet {
    type Response = Rsp;
    type Error = EnvErr;
    type Future = std::future::Pending<Result<Rsp, EnvErr>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Self::Future {
        std::future::pending()
    }
}
const CROWDS: &[usize] = &[0, 1, 2, 126, 127, 128, 254, 255, 256, 257, 1000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537];
/// Any number of requests outstanding at once; `base` is the load of none.
async fn crowd<S>(mut s: S, load: impl Fn(&S) -> f64, per_request: f64, base: f64)
where
    S: Service<u32>,
{
    let n = CROWDS[choose(CROWDS.len(), "outstanding")];
    let gone = [0, 1, n / 2, n][choose(4, "of these, dropped")].min(n);
    obs!("{n} requests, {gone} dropped");
    let mut futs = Vec::with_capacity(n);
    for i in 0..n {
        let _ = s.poll_ready(&mut Context::from_waker(std::task::Waker::noop()));
        futs.push(s.call(i as u32));
    }
    let judge = |s: &S, k: usize| {
        let (got, want) = (load(s), base + per_request * k as f64);
        check!((got - want).abs() <= 1e-9 * want.abs(), "the load is {got} with {k} outstanding requests, expected {want}");
    };
    judge(&s, n);
    futs.drain(..gone);
    if per_request == 1.0 {
        judge(&s, n - gone);
    }
    drop(futs);
    if per_request == 1.0 {
        judge(&s, 0);
    }
}

async fn c19_run(kind: usize, n: usize, reqs: usize, depth: usize, pre: usize) {
    dq_reset();
    let cfg = if pre > 0 { BUSY } else { IN };
    fn direct<C: Clone>(n: usize, c: C, inner: Cfg) -> Vec<(PendingRequests<EnvSvc, C>, usize)> {
        (0..n)
            .map(|_| {
                let s = env::svc(inner);
                let id = s.id;
                (PendingRequests::new(s, c.clone()), id)
            })
            .collect()
    }
    type Hd = pending_requests::Handle;
    type F<C> = TrackCompletionFuture<env::EnvFut, C, Hd>;
    fn plain(s: EnvSvc) -> EnvSvc {
        s
    }
    use tower::limit::{ConcurrencyLimit, RateLimit};
    fn limited<S>(v: Vec<(S, usize)>) -> Vec<(ConcurrencyLimit<RateLimit<S>>, usize)> {
        let rate = tower::limit::rate::Rate::new(1000, Duration::from_secs(1));
        v.into_iter().map(|(s, id)| (ConcurrencyLimit::new(RateLimit::new(s, rate), 1000), id)).collect()
    }
    match kind {
        4 => ops::<_, _, Rsp, Hd, CountRef>(limited(direct(n, CompleteOnResponse::default(), cfg)), depth, reqs, &[], true, pre, 1).await,
        5 => ops::<_, _, (Hd, Rsp), Hd, CountRef>(limited(direct(n, Keep, cfg)), depth, reqs, &[], true, pre, 1).await,
        0 => ops::<_, F<CompleteOnResponse>, Rsp, Hd, CountRef>(direct(n, CompleteOnResponse::default(), cfg), depth, reqs, &[], true, pre, 1).await,
        1 => ops::<_, F<Keep>, (Hd, Rsp), Hd, CountRef>(direct(n, Keep, cfg), depth, reqs, &[], true, pre, 1).await,
        2 => ops::<_, F<CompleteOnResponse>, Rsp, Hd, CountRef>(through(PendingRequestsDiscover::new::<u32>(Disc(plain), CompleteOnResponse::default()), n, cfg), depth, reqs, &[], true, pre, 1).await,
        _ => ops::<_, F<Keep>, (Hd, Rsp), Hd, CountRef>(through(PendingRequestsDiscover::new::<u32>(Disc(plain), Keep), n, cfg), depth, reqs, &[], true, pre, 1).await,
    }
}

fn c20(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (eps, reqs, depth, dev, always) in t.pick(
        vec![(1usize, 2usize, 8, 1, false), (1, 2, 8, 1, true), (2, 2, 7, 0, true), (1, 3, 7, 0, false)],
        vec![(1, 2, 10, 1, false), (1, 2, 10, 1, true), (2, 2, 8, 1, false), (1, 3, 9, 1, false)],
    ) {
        for kind in 0..4 {
            if kind == 3 && eps > 1 {
                continue;
            }
            let n = ["plain", "kept handle", "discovered", "discovered, kept handle"][kind];
            v.push(Scenario::new(
                format!("{n} endpoints={eps} requests={reqs} depth={depth} read-after-every-step={always}"),
                dev,
                move || c20_run(kind, eps, reqs, depth, always, 0, 1),
            ));
        }
    }
    for (eps, pre, depth) in t.pick(vec![(1usize, 5usize, 3), (2, 7, 3), (1, 12, 3)], vec![(1, 5, 4), (2, 7, 4), (1, 12, 4), (1, 40, 3)]) {
        for kind in 0..2 {
            let n = ["plain", "kept handle"][kind];
            v.push(Scenario::new(format!("{n} endpoints={eps} in-flight={pre} depth={depth}"), 0, move || c20_run(kind, eps, 2, depth, true, pre, 1)));
        }
    }
    // latencies and decays from seconds to days
    for unit in t.pick(vec![700u64, 3_000_000], vec![50, 700, 5_000, 3_000_000, 86_400_000]) {
        for kind in [0, 2] {
            let n = ["plain", "", "discovered"][kind];
            let depth = t.pick(6, 8);
            v.push(Scenario::new(format!("{n} unit={unit}ms endpoints=1 requests=2 depth={depth}"), 0, move || c20_run(kind, 1, 2, depth, true, 0, unit)));
        }
    }
    v.push(Scenario::new("up to 65537 outstanding requests", 0, || {
        let ns = DEFAULT_MS as f64 * 1e6;
        crowd(PeakEwma::new(Quiet, Duration::from_millis(DEFAULT_MS), DECAY_MS as f64 * 1e6, CompleteOnResponse::default()), |s| number(format!("{:?}", s.load())), ns, ns)
    }));
    v
}
async fn c20_run(kind: usize, n: usize, reqs: usize, depth: usize, always: bool, pre: usize, unit: u64) {
    dq_reset();
    let cfg = if pre > 0 { BUSY } else { IN };
    let d = Duration::from_millis(DEFAULT_MS * unit);
    fn direct<C: Clone>(n: usize, c: C, inner: Cfg, unit: u64) -> Vec<(PeakEwma<EnvSvc, C>, usize)> {
        (0..n)
            .map(|_| {
                let s = env::svc(inner);
                let id = s.id;
                (PeakEwma::new(s, Duration::from_millis(DEFAULT_MS * unit), (DECAY_MS * unit) as f64 * 1e6, c.clone()), id)
            })
            .collect()
    }
    type Hd = peak_ewma::Handle;
    type F<C> = TrackCompletionFuture<env::EnvFut, C, Hd>;
    fn plain(s: EnvSvc) -> EnvSvc {
        s
    }
    const STEPS: &[u64] = &[3, 8];
    let decay = Duration::from_millis(DECAY_MS * unit);
    match kind {
        0 => ops::<_, F<CompleteOnResponse>, Rsp, Hd, EwmaRef>(direct(n, CompleteOnResponse::default(), cfg, unit), depth, reqs, STEPS, always, pre, unit).await,
        1 => ops::<_, F<Keep>, (Hd, Rsp), Hd, EwmaRef>(direct(n, Keep, cfg, unit), depth, reqs, STEPS, always, pre, unit).await,
        2 => ops::<_, F<CompleteOnResponse>, Rsp, Hd, EwmaRef>(through(PeakEwmaDiscover::new::<u32>(Disc(plain), d, decay, CompleteOnResponse::default()), n, cfg), depth, reqs, STEPS, always, pre, unit).await,
        _ => ops::<_, F<Keep>, (Hd, Rsp), Hd, EwmaRef>(through(PeakEwmaDiscover::new::<u32>(Disc(plain), d, decay, Keep), n, cfg), depth, reqs, STEPS, always, pre, unit).await,
    }
}
