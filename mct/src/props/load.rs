//! C19 and C20 under thread interleavings: requests of one endpoint end on several threads at once
//! while its load is read.
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, fail, obs};
use std::collections::HashMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests};
use tower_service::Service;

pub struct Svc;
impl Service<u32> for Svc {
    type Response = u32;
    type Error = String;
    type Future = std::future::Ready<Result<u32, String>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), String>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, v: u32) -> Self::Future {
        std::future::ready(answer(v))
    }
}
fn answer(v: u32) -> Result<u32, String> {
    if v % 3 == 2 {
        Err(format!("e{v}"))
    } else {
        Ok(v + 100)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    /// request number n (of those made in the setup, or of an earlier `Call`) is driven to its end
    Finish(usize),
    Cancel(usize),
    /// the owner of the service makes one more request
    Call(usize),
    Load,
}
use Op::*;

/// times (in ms) at which the requests of the setup are made, and when the threads start
#[derive(Clone, Copy, Debug)]
struct Setup {
    calls: &'static [u64],
    start: u64,
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime")
}
fn advance(ms: u64) {
    let mut f = Box::pin(tokio::time::advance(Duration::from_millis(ms)));
    let _ = Future::poll(f.as_mut(), &mut Context::from_waker(std::task::Waker::noop()));
}
trait Ep: Load + Service<u32, Response = u32, Error = String> + Send + Sized + 'static {
    fn make() -> Self;
    fn value(m: Self::Metric) -> f64;
}
fn number(d: String) -> f64 {
    let s: String = d.chars().filter(|c| c.is_ascii_digit() || ".-e".contains(*c)).collect();
    s.trim_start_matches('e').parse().unwrap_or_else(|_| fail!("no number in {d:?}"))
}
impl Ep for PendingRequests<Svc> {
    fn make() -> Self {
        PendingRequests::new(Svc, CompleteOnResponse::default())
    }
    fn value(m: Self::Metric) -> f64 {
        number(format!("{m:?}").replace("Count", ""))
    }
}
impl Ep for PeakEwma<Svc> {
    fn make() -> Self {
        PeakEwma::new(Svc, Duration::from_millis(20), 50_000_000.0, CompleteOnResponse::default())
    }
    fn value(m: Self::Metric) -> f64 {
        number(format!("{m:?}").replace("Cost", ""))
    }
}

struct Run<E: Ep> {
    ep: E,
    futs: Vec<Option<E::Future>>,
}
fn setup<E: Ep>(s: &Setup) -> Run<E> {
    let mut ep = E::make();
    let mut now = 0;
    let mut futs = vec![];
    for (i, t) in s.calls.iter().enumerate() {
        advance(t - now);
        now = *t;
        futs.push(Some(ep.call(i as u32)));
    }
    advance(s.start - now);
    Run { ep, futs }
}
fn end<E: Ep>(f: Option<E::Future>, n: usize, finish: bool) {
    let f = f.expect("each request ends once");
    if !finish {
        return drop(f);
    }
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop())) {
        Poll::Ready(r) => check!(r == answer(n as u32), "request {n} got {r:?}"),
        Poll::Pending => fail!("request {n} does not end"),
    }
}
fn one<E: Ep>(ep: &mut E, futs: &mut Vec<Option<E::Future>>, o: Op) -> f64 {
    match o {
        Finish(n) | Cancel(n) => {
            let f = futs[n].take();
            end::<E>(f, n, matches!(o, Finish(_)));
            0.0
        }
        Call(n) => {
            futs.resize_with(n.max(futs.len()), || None);
            futs.push(Some(ep.call(n as u32)));
            0.0
        }
        Load => E::value(ep.load()),
    }
}
/// what loads are read one after another at the end: at once, and after a while
fn final_loads<E: Ep>(ep: &E) -> Vec<f64> {
    let a = E::value(ep.load());
    advance(30);
    vec![a, E::value(ep.load())]
}
type Spec = Vec<(Vec<(usize, usize)>, Vec<f64>, Vec<f64>)>;
/// Every order of all operations, run one at a time: results and final loads. For PeakEwma the loads
/// are per request (the estimate).
fn orders<E: Ep>(s: &Setup, ops: &[Vec<Op>]) -> Spec {
    fn rec(at: &mut Vec<usize>, ops: &[Vec<Op>], cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        let mut leaf = true;
        for t in 0..ops.len() {
            if at[t] < ops[t].len() {
                leaf = false;
                cur.push((t, at[t]));
                at[t] += 1;
                rec(at, ops, cur, out);
                at[t] -= 1;
                cur.pop();
            }
        }
        if leaf {
            out.push(cur.clone());
        }
    }
    let mut all = vec![];
    rec(&mut vec![0; ops.len()], ops, &mut vec![], &mut all);
    all.into_iter()
        .map(|o| {
            let rt = rt();
            let _g = rt.enter();
            let Run { mut ep, mut futs } = setup::<E>(s);
            let mut live = futs.len();
            let mut res = vec![];
            for &(t, k) in &o {
                let op = ops[t][k];
                let v = one(&mut ep, &mut futs, op);
                match op {
                    Call(_) => live += 1,
                    Finish(_) | Cancel(_) => live -= 1,
                    Load => {}
                }
                res.push(v / (live as f64 + 1.0));
            }
            (o, res, final_loads(&ep))
        })
        .collect()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-6
}

/// The first program is the owner's (it alone may call and read the load).
fn scenario<E: Ep>(name: String, dev: u32, estimate: bool, s: Setup, programs: Vec<Vec<Vec<Op>>>) -> Scenario
where
    E::Future: Send + 'static,
{
    let cache: Arc<Mutex<HashMap<usize, Arc<Spec>>>> = Default::default();
    Scenario::new(name, dev, move || {
        let p = choose(programs.len(), "program");
        let ops = &programs[p];
        let spec = {
            let mut g = cache.lock().unwrap_or_else(|e| e.into_inner());
            match g.get(&p) {
                Some(x) => x.clone(),
                None => {
                    let x = std::thread::scope(|sc| sc.spawn(|| Arc::new(orders::<E>(&s, ops))).join().expect("sequential run"));
                    g.insert(p, x.clone());
                    x
                }
            }
        };
        let rt = rt();
        let h = rt.handle().clone();
        let _e = h.enter();
        let Run { ep, mut futs } = setup::<E>(&s);
        let log: Arc<Mutex<Vec<(usize, usize, u64, u64, f64)>>> = Default::default();
        let back: Arc<Mutex<Option<(E, Vec<Option<E::Future>>)>>> = Default::default();
        let mut ep = Some(ep);
        let bodies = ops
            .iter()
            .enumerate()
            .map(|(t, l)| {
                let mut mine: Vec<Option<E::Future>> = vec![];
                for (i, f) in futs.iter_mut().enumerate() {
                    let own = l.iter().any(|o| matches!(o, Finish(n) | Cancel(n) if *n == i));
                    mine.push(if own { f.take() } else { None });
                }
                let mut ep = ep.take();
                let (l, log, h, back) = (l.clone(), log.clone(), h.clone(), back.clone());
                let f: mc_rt::Body = Box::new(move || {
                    let _e = h.enter();
                    for (k, o) in l.into_iter().enumerate() {
                        let st = mc_rt::now();
                        mc_rt::point("operation");
                        let r = match &mut ep {
                            Some(ep) => one(ep, &mut mine, o),
                            None => {
                                let (Finish(n) | Cancel(n)) = o else { fail!("only the owner does {o:?}") };
                                end::<E>(mine[n].take(), n, matches!(o, Finish(_)));
                                0.0
                            }
                        };
                        mc_rt::point("operation done");
                        let e = mc_rt::now();
                        obs!("{o:?} -> {r}");
                        log.lock().unwrap_or_else(|e| e.into_inner()).push((t, k, st, e, r));
                    }
                    if let Some(ep) = ep {
                        *back.lock().unwrap_or_else(|e| e.into_inner()) = Some((ep, mine));
                    }
                });
                (["T1", "T2", "T3", "T4"][t], f)
            })
            .collect();
        mc_rt::threads(bodies);
        let (ep, _outstanding) = back.lock().unwrap_or_else(|e| e.into_inner()).take().expect("the owner gives it back");
        let log = log.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let fin = final_loads(&ep);
        obs!("afterwards {fin:?}");
        let get = |t: usize, k: usize| *log.iter().find(|x| x.0 == t && x.1 == k).expect("logged");
        // how many requests may have been outstanding during [from, to]
        let span = |from: u64, to: u64| {
            let (mut lo, mut hi) = (s.calls.len() as i64, s.calls.len() as i64);
            for &(t, k, a, b, _) in &log {
                match ops[t][k] {
                    Call(_) => {
                        lo += (b < from) as i64;
                        hi += (a < to) as i64;
                    }
                    Finish(_) | Cancel(_) => {
                        lo -= (a < to) as i64;
                        hi -= (b < from) as i64;
                    }
                    Load => {}
                }
            }
            (lo, hi)
        };
        let hist: Vec<String> = log.iter().map(|(t, k, a, b, r)| format!("T{}:{:?}[{a}..{b}]={r}", t + 1, ops[*t][*k])).collect();
        let hist = hist.join(" ");
        if !estimate {
            for &(t, k, a, b, r) in &log {
                if ops[t][k] == Load {
                    let (lo, hi) = span(a, b);
                    check!(r >= lo as f64 && r <= hi as f64, "the load was {r} while {lo} to {hi} requests were outstanding: {hist}");
                }
            }
            let live = span(u64::MAX, u64::MAX).0 as f64;
            check!(fin.iter().all(|f| *f == live), "the load is {fin:?} with {live} requests outstanding: {hist}");
            return;
        }
        let ok = spec.iter().any(|(o, r, f)| {
            f.iter().zip(&fin).all(|(a, b)| near(*a, *b))
                && o.iter().zip(r).all(|(&(t, k), est)| {
                    let (_, _, a, b, got) = get(t, k);
                    let (lo, hi) = span(a, b);
                    ops[t][k] != Load || (lo..=hi).any(|n| near(got, est * (n as f64 + 1.0)))
                })
                && (0..o.len()).all(|i| (i + 1..o.len()).all(|j| get(o[j].0, o[j].1).3 > get(o[i].0, o[i].1).2))
        });
        check!(ok, "no one-at-a-time order of these operations explains the loads: {hist}; afterwards {fin:?} ({s:?})");
    })
}
fn programs(deep: bool) -> Vec<Vec<Vec<Op>>> {
    let mut v = vec![
        vec![vec![Load, Load], vec![Finish(0)], vec![Finish(1)]],
        vec![vec![Load], vec![Finish(0)], vec![Cancel(1)]],
        vec![vec![Load, Finish(2), Load], vec![Finish(0), Cancel(1)]],
        vec![vec![Call(3), Load], vec![Finish(0)], vec![Finish(2)]],
        vec![vec![Call(3), Cancel(3), Load], vec![Finish(1), Finish(0)]],
        vec![vec![], vec![Finish(0)], vec![Finish(1)], vec![Cancel(2)]],
    ];
    if deep {
        v.push(vec![vec![Load, Call(3), Load], vec![Finish(0), Cancel(1)], vec![Finish(2)]]);
        v.push(vec![vec![Call(3), Finish(3), Load], vec![Cancel(0)], vec![Cancel(1)], vec![Finish(2)]]);
    }
    v
}
const SETUPS: [Setup; 3] = [
    // all slow, all fast, and one peak among fast ones
    Setup { calls: &[0, 10, 30], start: 130 },
    Setup { calls: &[40, 44, 45], start: 47 },
    Setup { calls: &[0, 58, 59], start: 60 },
];
const ASSUME: &[&str] = &["threads interleave at operations on locks and atomics and between whole operations (sequentially consistent); reference counts of Arc are trusted"];
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        scenarios: |t| vec![scenario::<PendingRequests<Svc>>("threads: pending requests".into(), t.pick(5, 6), false, SETUPS[0], programs(t.pick(false, true)))],
        assumptions: ASSUME,
    }
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        scenarios: |t| {
            SETUPS
                .iter()
                .map(|s| scenario::<PeakEwma<Svc>>(format!("threads: peak EWMA, requests since {:?} end at {} ms", s.calls, s.start), t.pick(4, 5), true, *s, programs(t.pick(false, true))))
                .collect()
        },
        assumptions: ASSUME,
    }
}
