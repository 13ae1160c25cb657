//! Makers and discovery adapters (C28).
use super::balance::{dq, dq_push, dq_reset, Disc, DiscErr, Item, LSvc};
use crate::core::{choose, deviate, Scenario};
use crate::drive::{Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvSvc, Rd, O, R};
use crate::sched::Flag;
use crate::{check, fail, obs, Prop, Tier};
use futures_core::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::balance::p2c::{Balance, MakeBalance, MakeBalanceLayer};
use tower::discover::{Change, Discover, ServiceList};
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwma, PeakEwmaDiscover, PendingRequests, PendingRequestsDiscover};
use tower::make::{MakeConnection, MakeService, Shared};
use tower::{Layer, Service};

pub const C28: Prop = Prop { id: "C28", scenarios: c28, assumptions: &["the caller respects the poll_ready/call contract"] };

fn c28(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (name, f) in [
        ("constant", 0usize),
        ("pending-requests", 1),
        ("peak-ewma", 2),
        ("pending-requests over constant", 3),
        ("peak-ewma over pending-requests", 4),
    ] {
        v.push(Scenario::new(format!("discovery {name}"), t.pick(2, 3), move || discovery(f, t.pick(8, 9), 3)));
        for (n, dev) in t.pick(vec![(8usize, 2), (40, 1)], vec![(12, 2), (6, 3), (70, 1)]) {
            v.push(Scenario::new(format!("discovery {name}, long run: {n} services"), dev, move || discovery(f, 6 * n, n)));
        }
    }
    v.push(Scenario::new("discovery settings", 0, settings));
    v.push(Scenario::new("service list", 0, move || list((0..=t.pick(9, 20)).collect(), 0)));
    v.push(Scenario::new("service list, long", 2, move || list(vec![33, 65, t.pick(130, 300)], 2)));
    for (name, f) in [("into-service", 0usize), ("as-service", 1), ("make-service", 2), ("make-connection", 3), ("make-balance", 4), ("make-balance layer", 5)] {
        v.push(Scenario::new(format!("maker {name}"), t.pick(2, 3), move || maker(f, t.pick(8, 10), false)));
        v.push(Scenario::new(format!("maker {name}, long run"), 2, move || maker(f, t.pick(70, 200), true)));
    }
    v.push(Scenario::new("maker shared", t.pick(1, 2), move || shared(t.pick(8, 9), false)));
    v.push(Scenario::new("maker shared, long run", t.pick(2, 3), move || shared(t.pick(24, 40), true)));
    v
}

// ------------------------------------------------------------------------------- discovery adapters

/// A service that came out of an adapter.
trait Ep {
    fn id(&self) -> usize;
    /// load measurements, outermost first: number of outstanding requests, or a constant
    fn loads(&self) -> Vec<f64>;
    fn fresh() -> Vec<f64>;
    fn busy() -> Vec<f64>;
    fn go(&mut self) -> Pin<Box<dyn Future<Output = Result<env::Rsp, EnvErr>>>>;
}
const LOAD: u32 = 17;
const RTT: Duration = Duration::from_millis(40);
const DECAY: Duration = Duration::from_secs(1_000_000);
fn use_it<S: Service<u32, Response = env::Rsp, Error = EnvErr>>(s: &mut S) -> Pin<Box<dyn Future<Output = Result<env::Rsp, EnvErr>>>>
where
    S::Future: 'static,
{
    let (_f, w) = Flag::new();
    check!(s.poll_ready(&mut Context::from_waker(&w)).is_ready(), "an inserted service is not ready");
    Box::pin(s.call(9))
}
/// Which environment service is inside: found by polling it.
fn probe<S: Service<u32, Error = EnvErr>>(s: &mut S) -> usize {
    let before: Vec<usize> = env::w(|w| w.svcs.iter().map(|s| s.polls).collect());
    let (_f, w) = Flag::new();
    let _ = s.poll_ready(&mut Context::from_waker(&w));
    let after: Vec<usize> = env::w(|w| w.svcs.iter().map(|s| s.polls).collect());
    let hit: Vec<usize> = (0..after.len()).filter(|&i| after[i] > before[i]).collect();
    check!(hit.len() == 1, "the readiness poll of one inserted service reached services {hit:?}");
    hit[0]
}
/// Latency estimates in terms of the default: 1 at rest.
fn rtt(c: f64) -> f64 {
    (c / RTT.as_nanos() as f64 * 1000.0).round() / 1000.0
}
struct Out<S>(S, usize);
macro_rules! ep {
    ($t:ty, |$s:ident| $loads:expr, $fresh:expr, $busy:expr) => {
        impl Ep for Out<$t> {
            fn id(&self) -> usize {
                self.1
            }
            fn loads(&self) -> Vec<f64> {
                let $s = &self.0;
                $loads
            }
            fn fresh() -> Vec<f64> {
                $fresh
            }
            fn busy() -> Vec<f64> {
                $busy
            }
            fn go(&mut self) -> Pin<Box<dyn Future<Output = Result<env::Rsp, EnvErr>>>> {
                use_it(&mut self.0)
            }
        }
    };
}
fn cnt(c: tower::load::pending_requests::Count) -> f64 {
    // the count is opaque: find it by its debug representation
    format!("{c:?}").trim_start_matches("Count(").trim_end_matches(')').parse().expect("count")
}
fn cost(c: tower::load::peak_ewma::Cost) -> f64 {
    rtt(format!("{c:?}").trim_start_matches("Cost(").trim_end_matches(')').parse().expect("cost"))
}
type PR<S> = PendingRequests<S>;
ep!(Constant<LSvc, u32>, |s| vec![s.load() as f64], vec![LOAD as f64], vec![LOAD as f64]);
ep!(PR<LSvc>, |s| vec![cnt(s.load())], vec![0.0], vec![1.0]);
ep!(PeakEwma<LSvc>, |s| vec![cost(s.load())], vec![1.0], vec![2.0]);
ep!(PR<Constant<LSvc, u32>>, |s| vec![cnt(s.load())], vec![0.0], vec![1.0]);
ep!(PeakEwma<PR<LSvc>>, |s| vec![cost(s.load())], vec![1.0], vec![2.0]);

async fn discovery(which: usize, depth: usize, n: usize) {
    dq_reset();
    let src = Disc(LSvc);
    match which {
        0 => drive_disc(Constant::new(src, LOAD), depth, n).await,
        1 => drive_disc(PendingRequestsDiscover::new::<u32>(src, CompleteOnResponse::default()), depth, n).await,
        2 => drive_disc(PeakEwmaDiscover::new::<u32>(src, RTT, DECAY, CompleteOnResponse::default()), depth, n).await,
        3 => drive_disc(PendingRequestsDiscover::new::<u32>(Constant::new(src, LOAD), CompleteOnResponse::default()), depth, n).await,
        _ => drive_disc(PeakEwmaDiscover::new::<u32>(PendingRequestsDiscover::new::<u32>(src, CompleteOnResponse::default()), RTT, DECAY, CompleteOnResponse::default()), depth, n).await,
    }
}
/// More than three services: they come one after the other, and everything else is a deviation.
async fn drive_disc<A, S>(a: A, depth: usize, n: usize)
where
    A: Stream<Item = Result<Change<u8, S>, DiscErr>> + 'static,
    S: Service<u32, Response = env::Rsp, Error = EnvErr> + 'static,
    Out<S>: Ep,
{
    const LAZY: Cfg = Cfg { call: &[O::Pend], ..env::ALWAYS };
    let mut a = Box::pin(a);
    let (flag, waker) = Flag::new();
    let mut sent: std::collections::VecDeque<(char, u8, usize)> = Default::default();
    // services that came out, and whether a request is outstanding
    let mut outs: Vec<(Out<S>, Option<Pin<Box<dyn Future<Output = Result<env::Rsp, EnvErr>>>>>)> = vec![];
    let mut ended = false;
    let mut end_seen = false;
    let mut polled = false;
    let mut ins = 0;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Ins(u8),
        Rem(u8),
        Err,
        End,
        Use(usize),
        Done(usize),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        if !end_seen {
            if !polled || flag.is() {
                ops.push(Op::Poll);
            } else {
                sp.push(Op::Poll);
            }
        }
        if !ended {
            if ins < n {
                ops.push(Op::Ins(if n == 3 { ins as u8 % 2 } else { ins as u8 }));
            }
            ops.push(Op::Rem(0));
            sp.push(Op::Rem(7));
            ops.push(Op::Err);
            ops.push(Op::End);
        }
        for (i, o) in outs.iter().enumerate() {
            match o.1 {
                None if n == 3 || env::w(|w| w.svcs[o.0.id()].ncalls) == 0 => ops.push(Op::Use(i)),
                None => {}
                Some(_) => sp.push(Op::Done(i)),
            }
        }
        if ops.is_empty() {
            break;
        }
        let op = if n > 3 {
            // mostly one service at a time, sometimes three
            let burst = ins % 8 < 3 && ins < n;
            ops.extend(sp);
            ops.sort_by_key(|o| match o {
                Op::Poll if burst || flag.is() && sent.is_empty() || polled && !flag.is() => 3,
                Op::Poll => 0,
                Op::Use(i) if i % 2 == 0 => 1,
                Op::Ins(_) => 2,
                Op::Done(i) if ins == n && i % 4 == 0 => 4,
                Op::End => 5,
                _ => 6,
            });
            ops[deviate(ops.len(), "op")]
        } else {
            let d = if sp.is_empty() { 0 } else { deviate(sp.len() + 1, "spurious poll, response or unknown key") };
            if d > 0 {
                sp[d - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("{op:?}");
        match op {
            Op::Ins(k) => {
                ins += 1;
                let s = env::svc(LAZY);
                sent.push_back(('i', k, s.id));
                dq_push(Item::Ins(k, s));
            }
            Op::Rem(k) => {
                sent.push_back(('r', k, 0));
                dq_push(Item::Rem(k));
            }
            Op::Err => {
                sent.push_back(('e', 0, 0));
                dq_push(Item::Err);
            }
            Op::End => {
                ended = true;
                sent.push_back(('z', 0, 0));
                dq_push(Item::End);
            }
            Op::Poll => {
                flag.clear();
                polled = true;
                let r = a.as_mut().poll_next(&mut Context::from_waker(&waker));
                let want = sent.pop_front();
                let ok = match (r, want) {
                    (Poll::Pending, None) => true,
                    (Poll::Ready(None), Some(('z', ..))) => {
                        end_seen = true;
                        true
                    }
                    (Poll::Ready(Some(Err(DiscErr))), Some(('e', ..))) => {
                        polled = false;
                        true
                    }
                    (Poll::Ready(Some(Ok(Change::Remove(k)))), Some(('r', k2, _))) => {
                        polled = false;
                        k == k2
                    }
                    (Poll::Ready(Some(Ok(Change::Insert(k, mut s)))), Some(('i', k2, id))) => {
                        polled = false;
                        let got = probe(&mut s);
                        let o = Out(s, id);
                        check!(got == id, "the inserted service is {got} instead of {id}");
                        check!(o.loads() == Out::<S>::fresh(), "a new service starts with load {:?} instead of {:?}", o.loads(), Out::<S>::fresh());
                        outs.push((o, None));
                        k == k2
                    }
                    _ => false,
                };
                check!(ok, "the adapter did not deliver {want:?}");
            }
            Op::Use(i) => {
                let n = env::n_calls();
                let f = outs[i].0.go();
                check!(env::n_calls() == n + 1 && env::w(|w| w.calls[n].0) == outs[i].0.id(), "the request went elsewhere");
                outs[i].1 = Some(f);
            }
            Op::Done(i) => {
                let id = outs[i].0.id();
                let f = env::w(|w| w.calls.iter().rev().find(|c| c.0 == id).unwrap().1);
                env::complete(f, true);
                let (_f, w) = Flag::new();
                let r = outs[i].1.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
                check!(matches!(r, Poll::Ready(Ok(x)) if x.fut == f), "response {r:?}");
                outs[i].1 = None;
            }
        }
        // each has a load measurement of its own
        for (o, f) in &outs {
            if f.is_some() {
                check!(o.loads() == Out::<S>::busy(), "load of busy service {} is {:?}", o.id(), o.loads());
            } else if Out::<S>::busy()[0] != 2.0 || env::w(|w| w.svcs[o.id()].ncalls) == 0 {
                // (a latency estimate is no longer fresh after a response)
                check!(o.loads() == Out::<S>::fresh(), "load of idle service {} is {:?}", o.id(), o.loads());
            }
        }
        if polled && !flag.is() && !end_seen {
            check!(sent.is_empty(), "a change arrived, but the consumer was not woken");
        }
        check!(dq(|d| d.polled_after_end) == 0, "polled after the end");
    }
}

/// The wrappers' settings reach every service: completion policy, default estimate and decay.
#[derive(Clone, Default)]
struct Keep;
impl<H> tower::load::TrackCompletion<H, env::Rsp> for Keep {
    type Output = (H, env::Rsp);
    fn track_completion(&self, h: H, r: env::Rsp) -> Self::Output {
        (h, r)
    }
}
async fn settings() {
    dq_reset();
    let (_f, w) = Flag::new();
    let cx = &mut Context::from_waker(&w);
    let n = 1 + choose(3, "services");
    for k in 0..n {
        dq_push(Item::Ins(k as u8, env::svc(env::ALWAYS)));
    }
    if choose(2, "adapter") == 0 {
        let mut d = Box::pin(PendingRequestsDiscover::new::<u32>(Disc(LSvc), Keep));
        for _ in 0..n {
            let Poll::Ready(Some(Ok(Change::Insert(_, mut s)))) = d.as_mut().poll_next(cx) else { fail!("no insertion") };
            let _ = s.poll_ready(cx);
            let mut f = Box::pin(s.call(1));
            let Poll::Ready(Ok(r)) = f.as_mut().poll(cx) else { fail!("no response") };
            drop(f);
            check!(cnt(s.load()) == 1.0, "the completion policy was not passed on: load {:?} while the response is held", s.load());
            drop(r);
            check!(cnt(s.load()) == 0.0, "load {:?} after the response was dropped", s.load());
        }
    } else {
        let rtt = Duration::from_millis([1, 40, 700][choose(3, "default")]);
        let decay = Duration::from_millis([5, 90, 4000][choose(3, "decay")]);
        let t1 = [0, 3, 60][choose(3, "latency")];
        let t2 = [0, 1, 50, 3000][choose(4, "pause")];
        let mut d = Box::pin(PeakEwmaDiscover::new::<u32>(Disc(LSvc), rtt, decay, Keep));
        for k in 0..n {
            let Poll::Ready(Some(Ok(Change::Insert(_, mut s)))) = d.as_mut().poll_next(cx) else { fail!("no insertion") };
            // the same thing made directly
            let mut x = PeakEwma::new(LSvc(env::svc(env::ALWAYS)), rtt, decay.as_nanos() as f64, Keep);
            let same = |a: &PeakEwma<LSvc, Keep>, b: &PeakEwma<LSvc, Keep>, at: &str| {
                check!(format!("{:?}", a.load()) == format!("{:?}", b.load()), "service {k} has load {:?} {at}, made directly {:?}", a.load(), b.load());
            };
            same(&s, &x, "at first");
            let _ = (s.poll_ready(cx), x.poll_ready(cx));
            let (mut f, mut g) = (Box::pin(s.call(1)), Box::pin(x.call(1)));
            same(&s, &x, "when called");
            crate::sched::advance(t1).await;
            let (Poll::Ready(Ok(r)), Poll::Ready(Ok(q))) = (f.as_mut().poll(cx), g.as_mut().poll(cx)) else { fail!("no response") };
            drop((f, g));
            crate::sched::advance(1).await;
            same(&s, &x, "holding the response");
            drop((r, q));
            same(&s, &x, "after the response");
            crate::sched::advance(t2).await;
            same(&s, &x, "after a pause");
        }
    }
}

async fn list(lengths: Vec<usize>, dev: u32) {
    let n = lengths[choose(lengths.len(), "length")];
    let method = |l| if dev > 0 { deviate(2, l) } else { choose(2, l) };
    let svcs: Vec<EnvSvc> = (0..n).map(|_| env::svc(env::ALWAYS)).collect();
    let mut l = Box::pin(ServiceList::new::<u32>(svcs));
    let (_f, w) = Flag::new();
    let mut cx = Context::from_waker(&w);
    for i in 0..n {
        let r = if method("method") == 0 { l.as_mut().poll_next(&mut cx) } else { l.as_mut().poll_discover(&mut cx) };
        match r {
            Poll::Ready(Some(Ok(Change::Insert(k, s)))) => {
                check!(k == i && s.id == i, "service {} with key {k} instead of service {i}", s.id);
                env::w(|w| check!(!w.svcs[s.id].dropped && w.svcs.len() == n, "services were dropped or cloned"));
            }
            r => fail!("list yields {r:?} in place of service {i}"),
        }
    }
    for _ in 0..2 {
        let r = l.as_mut().poll_next(&mut cx);
        check!(matches!(r, Poll::Ready(None)), "list yields {r:?} in place of the end");
    }
}

// ------------------------------------------------------------------------------------------ makers

/// A maker: an environment service whose responses become services.
#[derive(Clone, Debug)]
struct Mk(EnvSvc);
#[derive(Debug)]
struct MkFut(EnvFut);
fn made(fut: usize) -> Option<usize> {
    env::w(|w| w.ext.get(fut).copied().filter(|x| *x >= 0).map(|x| x as usize))
}
impl Service<u32> for Mk {
    type Response = EnvSvc;
    type Error = EnvErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, target: u32) -> MkFut {
        MkFut(self.0.call_env(target))
    }
}
fn make(fut: usize) -> EnvSvc {
    check!(made(fut).is_none(), "made twice");
    let s = env::svc(env::ALWAYS);
    env::w(|w| {
        while w.ext.len() <= fut {
            w.ext.push(-1)
        }
        w.ext[fut] = s.id as i64;
    });
    s
}
impl Future for MkFut {
    type Output = Result<EnvSvc, EnvErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map_ok(|r| make(r.fut))
    }
}
/// As `Mk`, for discovery streams of one service.
#[derive(Clone, Debug)]
struct MkD(EnvSvc);
struct MkDFut(EnvFut);
impl Service<u32> for MkD {
    type Response = ServiceList<Vec<LSvc>>;
    type Error = EnvErr;
    type Future = MkDFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, target: u32) -> MkDFut {
        MkDFut(self.0.call_env(target))
    }
}
impl Future for MkDFut {
    type Output = Result<ServiceList<Vec<LSvc>>, EnvErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map_ok(|r| ServiceList::new::<u32>(vec![LSvc(make(r.fut))]))
    }
}
/// A connection.
struct Conn(EnvSvc);
impl tokio::io::AsyncRead for Conn {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
}
impl tokio::io::AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
#[derive(Clone, Debug)]
struct MkC(EnvSvc);
struct MkCFut(EnvFut);
impl Service<u32> for MkC {
    type Response = Conn;
    type Error = EnvErr;
    type Future = MkCFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, target: u32) -> MkCFut {
        MkCFut(self.0.call_env(target))
    }
}
impl Future for MkCFut {
    type Output = Result<Conn, EnvErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map_ok(|r| Conn(make(r.fut)))
    }
}

/// The service that was made, identified.
trait Made {
    fn ident(self) -> usize;
}
impl Made for EnvSvc {
    fn ident(self) -> usize {
        self.id
    }
}
impl Made for Conn {
    fn ident(self) -> usize {
        self.0.id
    }
}
impl Made for Balance<ServiceList<Vec<LSvc>>, u32> {
    fn ident(mut self) -> usize {
        let (_f, w) = Flag::new();
        let r = self.poll_ready(&mut Context::from_waker(&w));
        check!(matches!(r, Poll::Ready(Ok(()))), "a balancer over a list of one ready service answers {r:?}");
        check!(self.len() == 1, "a balancer over a list of one service has {}", self.len());
        let n = env::n_calls();
        let _f = self.call(1);
        env::w(|w| w.calls[n].0)
    }
}

// Trait adapters turned into services, so that one driver drives them all.
#[derive(Clone)]
struct ViaMake(Mk);
impl Service<u32> for ViaMake {
    type Response = EnvSvc;
    type Error = EnvErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        MakeService::<u32, u32>::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: u32) -> MkFut {
        MakeService::<u32, u32>::make_service(&mut self.0, t)
    }
}
#[derive(Clone)]
struct ViaAs(Mk);
impl Service<u32> for ViaAs {
    type Response = EnvSvc;
    type Error = EnvErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        Service::poll_ready(&mut MakeService::<u32, u32>::as_service(&mut self.0), cx)
    }
    fn call(&mut self, t: u32) -> MkFut {
        Service::call(&mut MakeService::<u32, u32>::as_service(&mut self.0), t)
    }
}
#[derive(Clone)]
struct ViaConn(MkC);
impl Service<u32> for ViaConn {
    type Response = Conn;
    type Error = EnvErr;
    type Future = MkCFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        MakeConnection::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: u32) -> MkCFut {
        MakeConnection::make_connection(&mut self.0, t)
    }
}

async fn maker(which: usize, depth: usize, long: bool) {
    const LONG: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], dev: true, ..env::ALWAYS };
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    let s = env::svc(if long { LONG } else { IN });
    match which {
        0 => drive_maker(MakeService::<u32, u32>::into_service(Mk(s)), depth, long).await,
        1 => drive_maker(ViaAs(Mk(s)), depth, long).await,
        2 => drive_maker(ViaMake(Mk(s)), depth, long).await,
        3 => drive_maker(ViaConn(MkC(s)), depth, long).await,
        4 => drive_maker(MakeBalance::<MkD, u32>::new(MkD(s)), depth, long).await,
        _ => drive_maker(MakeBalanceLayer::<MkD, u32>::new().layer(MkD(s)), depth, long).await,
    }
}
/// `long`: one call after the other; anything else is a deviation.
async fn drive_maker<M>(m: M, depth: usize, long: bool)
where
    M: Service<u32, Error = EnvErr> + Clone,
    M::Response: Made,
{
    // handle and the maker inside
    let mut hs = vec![(Handle::new(m), 0usize)];
    let mut rs: Vec<(Resp<_>, usize)> = vec![];
    let mut targets = 0;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize),
        Call(usize),
        Clone,
        PollR(usize),
        DropR(usize),
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        for (i, (h, _)) in hs.iter().enumerate() {
            match h.st {
                H::Idle => ops.push(Op::Poll(i)),
                H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                H::Waiting => {
                    let id = hs[i].1;
                    check!(env::w(|w| w.svcs[id].state) == Rd::Pending, "the maker changed, but the caller was not woken");
                    sp.push(Op::Poll(i))
                }
                H::Ready => ops.push(Op::Call(i)),
                _ => {}
            }
        }
        if hs.len() < 2 {
            sp.push(Op::Clone);
        }
        for (i, (r, f)) in rs.iter().enumerate() {
            let r: &Resp<M::Future> = r;
            if r.due() {
                ops.push(Op::PollR(i));
            } else if r.live() {
                check!(env::expected(*f).is_none(), "the maker answered, but the caller was not woken");
                sp.push(Op::PollR(i));
            }
            if r.live() {
                sp.push(Op::DropR(i));
            }
        }
        // only the makers themselves: the services made are always ready
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let op = if long {
            ops.extend(sp);
            ops.sort_by_key(|o| match o {
                Op::PollR(i) if rs.iter().filter(|r| r.0.due()).count() > *i % 3 => 0,
                Op::Call(i) | Op::Poll(i) => 1 + (*i + targets as usize) % 2,
                Op::PollR(_) => 4,
                Op::Env(_) => 5,
                _ => 6,
            });
            ops[deviate(ops.len(), "op")]
        } else {
            let d = if sp.is_empty() { 0 } else { deviate(sp.len() + 1, "spurious poll, clone or drop") };
            if d > 0 {
                sp[d - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("{op:?}");
        let calls = env::n_calls();
        match op {
            Op::Poll(i) => {
                let r = hs[i].0.poll_ready();
                let seen = env::w(|w| w.svcs[hs[i].1].seen);
                let ok = match (&r, seen) {
                    (Poll::Ready(Ok(())), Rd::Ready) => true,
                    (Poll::Pending, Rd::Pending) => true,
                    (Poll::Ready(Err(e)), Rd::Failed(_)) => *e == EnvErr { ready: true, of: hs[i].1 },
                    _ => false,
                };
                check!(ok, "readiness is {r:?} with the maker {seen:?}");
                check!(env::n_calls() == calls, "a readiness poll made a service");
            }
            Op::Call(i) => {
                targets += 1;
                let r = hs[i].0.call(targets);
                check!(env::n_calls() == calls + 1, "one call made {} services", env::n_calls() - calls);
                let (s, f) = env::w(|w| w.calls[calls]);
                check!(s == hs[i].1 && env::w(|w| w.futs[f].req) == targets, "wrong maker or target");
                rs.push((r, f));
            }
            Op::Clone => {
                let h = hs[0].0.dup();
                let id = env::w(|w| w.svcs.iter().rposition(|s| s.parent == Some(hs[0].1))).expect("clone of the maker");
                hs.push((h, id));
            }
            Op::PollR(i) => {
                let (r, f) = &mut rs[i];
                r.poll();
                let want = env::expected(*f);
                match (r.out.take(), want) {
                    (None, None) => {}
                    (Some(Ok(s)), Some(Ok(_))) => {
                        let m = made(*f);
                        check!(m.is_some(), "no service was made");
                        let id = s.ident();
                        check!(Some(id) == m, "service {id} instead of {m:?}");
                        r.fut = None;
                    }
                    (Some(Err(e)), Some(Err(x))) => {
                        check!(e == x, "error {e:?} instead of {x:?}");
                        r.fut = None;
                    }
                    (a, b) => fail!("maker answered {b:?}, the caller got {}", match a {
                        None => "nothing",
                        Some(Ok(_)) => "a service",
                        Some(Err(_)) => "an error",
                    }),
                }
            }
            Op::DropR(i) => {
                rs[i].0.drop_fut();
                check!(env::w(|w| w.futs[rs[i].1].dropped), "the maker's future outlives the caller's");
            }
            Op::Env(a) => env::act(a),
        }
    }
}

async fn shared(depth: usize, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend], ..env::ALWAYS };
    const LONG: Cfg = Cfg { dev: true, ..IN };
    let inner = env::svc(if long { LONG } else { IN });
    let choose = |n: usize, l: &str| if long { deviate(n, l) } else { choose(n, l) };
    // services handed out are used as well: the original stays as it is
    let mut m = Shared::new(inner);
    let mut got: Vec<EnvSvc> = vec![];
    for n in 0..depth {
        let (_f, w) = Flag::new();
        let mut cx = Context::from_waker(&w);
        match choose(2, "op") {
            0 => {
                let way = choose(3, "adapter");
                let before = env::w(|w| w.svcs.len());
                let s = match way {
                    0 => {
                        let r = Service::<u32>::poll_ready(&mut m, &mut cx);
                        check!(matches!(r, Poll::Ready(Ok(()))), "a shared maker is not ready");
                        let f = m.call(n as u32);
                        poll_now(f)
                    }
                    1 => {
                        let r = MakeService::<u32, u32>::poll_ready(&mut m, &mut cx);
                        check!(matches!(r, Poll::Ready(Ok(()))), "a shared maker is not ready");
                        poll_now(MakeService::<u32, u32>::make_service(&mut m, n as u32))
                    }
                    _ => {
                        let mut s = MakeService::<u32, u32>::into_service(m.clone());
                        let r = Service::<u32>::poll_ready(&mut s, &mut cx);
                        check!(matches!(r, Poll::Ready(Ok(()))), "a shared maker is not ready");
                        poll_now(s.call(n as u32))
                    }
                };
                let made = env::w(|w| (before..w.svcs.len()).filter(|&i| !w.svcs[i].dropped).collect::<Vec<_>>());
                check!(made == vec![s.id], "one call left {made:?} services, and gave {}", s.id);
                check!(env::w(|w| w.svcs[s.id].root) == 0, "not a clone of the shared service");
                got.push(s);
            }
            _ => {
                if got.is_empty() {
                    return;
                }
                let i = deviate(got.len(), "service");
                let r = got[i].poll_ready(&mut cx);
                if r.is_ready() {
                    let _f = got[i].call(1);
                }
            }
        }
        check!(env::w(|w| w.svcs[0].polls == 0 && w.svcs[0].ncalls == 0 && !w.svcs[0].dropped), "the shared original was used");
    }
}
fn poll_now<F: Future<Output = Result<EnvSvc, std::convert::Infallible>>>(f: F) -> EnvSvc {
    let (_f, w) = Flag::new();
    match Box::pin(f).as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(Ok(s)) => s,
        Poll::Ready(Err(_)) => unreachable!(),
        Poll::Pending => fail!("a shared maker's answer is pending"),
    }
}
