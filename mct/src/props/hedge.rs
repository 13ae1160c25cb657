//! C15 under thread interleavings: hedged requests end on several threads at once, also just when a
//! measurement period is over.
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, fail, obs};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::hedge::{Hedge, Policy};
use tower_service::Service;

const PROBE: u32 = 99;
type BoxError = Box<dyn std::error::Error + Send + Sync>;
type Fut<T> = Pin<Box<dyn Future<Output = Result<T, BoxError>> + Send>>;

#[derive(Clone)]
struct Svc(Arc<AtomicUsize>);
impl Service<u32> for Svc {
    type Response = u32;
    type Error = BoxError;
    type Future = Fut<u32>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, v: u32) -> Self::Future {
        if v == PROBE {
            self.0.fetch_add(1, SeqCst);
            Box::pin(std::future::pending())
        } else if v % 3 == 2 {
            Box::pin(std::future::ready(Err(format!("e{v}").into())))
        } else {
            Box::pin(std::future::ready(Ok(v + 100)))
        }
    }
}
#[derive(Clone)]
struct Pol;
impl Policy<u32> for Pol {
    fn clone_request(&self, r: &u32) -> Option<u32> {
        (*r == PROBE).then_some(*r)
    }
    fn can_retry(&self, _: &u32) -> bool {
        true
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Finish(usize),
    Cancel(usize),
    /// the owner makes and finishes one more request
    Whole(u32),
    /// the owner makes a request that may be hedged, and drops it
    Peek,
}
use Op::*;
#[derive(Clone, Copy, Debug)]
struct Setup {
    period: u64,
    /// when the requests are made, and when the threads start
    calls: &'static [u64],
    start: u64,
    /// so long after that the hedging is looked at
    then: u64,
}
fn advance(ms: u64) {
    let mut f = Box::pin(tokio::time::advance(Duration::from_millis(ms)));
    let _ = Future::poll(f.as_mut(), &mut Context::from_waker(Waker::noop()));
}
fn end(f: Option<Fut<u32>>, n: u32, finish: bool) {
    let mut f = f.expect("each request ends once");
    if finish {
        match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Ok(v)) => check!(n % 3 != 2 && v == n + 100, "request {n} got {v}"),
            Poll::Ready(Err(e)) => check!(n % 3 == 2 && e.to_string() == format!("e{n}"), "request {n} failed with {e}"),
            Poll::Pending => fail!("request {n} does not end"),
        }
    }
}
type H = Hedge<Svc, Pol>;
fn call(h: &mut H, v: u32) -> Fut<u32> {
    let r = h.poll_ready(&mut Context::from_waker(Waker::noop()));
    check!(matches!(r, Poll::Ready(Ok(()))), "the hedge is not ready though its service is");
    Box::pin(h.call(v))
}
fn own(h: &mut H, o: Op) {
    match o {
        Whole(v) => {
            let f = call(h, v);
            end(Some(f), v, true)
        }
        Peek => {
            let mut f = call(h, PROBE);
            let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        }
        _ => fail!("not the owner's"),
    }
}
/// after how many milliseconds a request which is not answered is hedged
async fn probe(h: &mut H, n: &AtomicUsize, until: u64) -> Option<u64> {
    n.store(0, SeqCst);
    let mut f = call(h, PROBE);
    for ms in 0..=until {
        let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        let sent = n.load(SeqCst);
        check!((1..=2).contains(&sent), "{sent} requests were sent for one");
        if sent == 2 {
            return Some(ms);
        }
        tokio::time::advance(Duration::from_millis(1)).await;
    }
    None
}
fn scenario(name: String, dev: u32, s: Setup, programs: Vec<Vec<Vec<Op>>>) -> Scenario {
    Scenario::new(name, dev, move || {
        let ops = &programs[choose(programs.len(), "program")];
        // which data points there are, by the definition of the property
        let ended: Vec<(u64, u64)> = ops
            .iter()
            .flatten()
            .filter_map(|o| match *o {
                Finish(n) if n % 3 != 2 => Some((s.start, s.start - s.calls[n])),
                Whole(v) if v % 3 != 2 => Some((s.start, 0)),
                _ => None,
            })
            .collect();
        let look = s.start + s.then;
        let mut points: Vec<u64> = ended.iter().filter(|(at, _)| at / s.period + 1 == look / s.period).map(|x| x.1).collect();
        points.sort();
        let n = points.len() as u64;
        let (min, q) = [(n, 0.5), (n + 1, 0.5), (n, 1.0), (n.max(1), 0.01)][choose(4, "data points asked for, percentile")];
        let expect = (n >= min).then(|| {
            // the histogram's quantile: the smallest value at or below which that share of the points lies
            let k = ((q * n as f64).ceil() as usize).max(1);
            // a timer of no length at all may take a millisecond
            points.get(k - 1).copied().unwrap_or(0).max(1)
        });
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
        let h = rt.handle().clone();
        let _e = h.enter();
        let sent: Arc<AtomicUsize> = Default::default();
        let mut hedge: H = Hedge::new(Svc(sent.clone()), Pol, min, q as f32, Duration::from_millis(s.period));
        let (mut now, mut futs) = (0, vec![]);
        for (i, t) in s.calls.iter().enumerate() {
            advance(t - now);
            now = *t;
            futs.push(Some(call(&mut hedge, i as u32)));
        }
        advance(s.start - now);
        let back: Arc<Mutex<Option<H>>> = Default::default();
        let mut hedge = Some(hedge);
        let bodies = ops
            .iter()
            .enumerate()
            .map(|(t, l)| {
                let mut mine: Vec<Option<Fut<u32>>> = vec![];
                for (i, f) in futs.iter_mut().enumerate() {
                    let o = l.iter().any(|o| matches!(o, Finish(n) | Cancel(n) if *n == i));
                    mine.push(if o { f.take() } else { None });
                }
                let (mut hedge, l, h, back) = (hedge.take(), l.clone(), h.clone(), back.clone());
                let f: mc_rt::Body = Box::new(move || {
                    let _e = h.enter();
                    for o in l {
                        mc_rt::point("operation");
                        match o {
                            Finish(n) | Cancel(n) => end(mine[n].take(), n as u32, matches!(o, Finish(_))),
                            _ => own(hedge.as_mut().expect("the owner"), o),
                        }
                        obs!("{o:?}");
                    }
                    if hedge.is_some() {
                        *back.lock().unwrap_or_else(|e| e.into_inner()) = hedge;
                    }
                });
                (["T1", "T2", "T3", "T4"][t], f)
            })
            .collect();
        mc_rt::threads(bodies);
        let mut hedge = back.lock().unwrap_or_else(|e| e.into_inner()).take().expect("the owner gives it back");
        advance(s.then);
        let got = rt.block_on(probe(&mut hedge, &sent, points.last().map_or(1, |p| p + p / 500) + 2));
        obs!("hedged after {got:?}");
        // beyond 2 s the histogram keeps three digits
        check!(
            got == expect || matches!((got, expect), (Some(g), Some(e)) if e >= 2048 && g > e && g <= e + e / 1000 + 1),
            "an unanswered request was hedged after {got:?} ms, should be {expect:?}: the latencies of the previous period are {points:?}, {min} needed, percentile {q} ({s:?} {ops:?})"
        );
    })
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        scenarios: |t| {
            let mut programs = vec![
                vec![vec![], vec![Finish(0)], vec![Finish(1)]],
                vec![vec![Whole(4)], vec![Finish(0)], vec![Finish(3)]],
                vec![vec![Peek], vec![Finish(0), Cancel(1)], vec![Finish(3)]],
                vec![vec![Peek, Whole(6)], vec![Finish(0), Finish(2)], vec![Finish(1)]],
                vec![vec![Whole(5)], vec![Cancel(0)], vec![Finish(1), Finish(3)]],
            ];
            if t.pick(false, true) {
                programs.push(vec![vec![Peek], vec![Finish(0)], vec![Finish(1)], vec![Finish(3)]]);
                programs.push(vec![vec![Whole(4), Peek], vec![Finish(0), Finish(1)], vec![Finish(3), Cancel(2)]]);
            }
            let calls: &[u64] = &[5, 17, 20, 60];
            [("within a period", 90, 20), ("when a period is over", 130, 90), ("when two periods are over", 230, 110), ("long idle before", 3030, 120), ("long idle after", 130, 300)]
                .into_iter()
                .map(|(n, start, then)| scenario(format!("threads: requests end {n}"), t.pick(4, 5), Setup { period: 100, calls, start, then }, programs.clone()))
                .collect()
        },
        assumptions: &["threads interleave at operations on locks and atomics and between whole operations (sequentially consistent)"],
    }
}
