//! Hedge: at most one extra request (C14), delay taken from the last full period (C15).
use crate::core::{choose, deviate, Scenario};
use crate::drive::{classify, Er, Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvSvc, Rd, O, R};
use crate::sched::advance;
use crate::{check, fail, obs, Prop, Tier};
use std::cell::RefCell;
use std::collections::HashMap;
use std::task::Poll;
use std::time::Duration;
use tower::hedge::{Hedge, Policy};

pub const C14: Prop = Prop { id: "C14", scenarios: c14, assumptions: &["virtual time with whole-millisecond steps", "if both requests have finished by the same poll either result is accepted", "a hedge whose service clone fails its readiness counts as finished with that error"] };
pub const C15: Prop = Prop { id: "C15", scenarios: c15, assumptions: &["measurement periods are counted from the creation of the service", "latency is the time from dispatch to the poll which sees the response, in whole milliseconds (exact below 2048 ms, to three digits above)"] };

#[derive(Clone)]
struct Conf {
    reqs: usize,
    depth: usize,
    env: Cfg,
    /// the policy decides at will (otherwise it always clones and always agrees)
    picky: bool,
    percentile: f32,
    min_points: u64,
    period: u64,
    /// preset latencies of the previous period
    preset: &'static [u64],
    steps: &'static [u64],
    /// merge readiness poll and call, and completion and poll
    merged: bool,
    /// successful requests made before the exploration starts, 1 to 3 ms long
    warm: usize,
}
/// the histogram keeps three digits: from 2048ms on, the delay may be that much longer
fn hi(d: u64) -> u64 {
    if d < 2048 {
        d
    } else {
        d + d / 1000 + 1
    }
}

#[derive(Default)]
struct PolLog {
    picky: bool,
    now: u64,
    cloned: HashMap<u32, Option<u32>>,
    /// (time, answer) by cloned request
    retry: HashMap<u32, (u64, bool)>,
}
thread_local! { static PL: RefCell<PolLog> = RefCell::new(PolLog::default()); }
fn pl<T>(f: impl FnOnce(&mut PolLog) -> T) -> T {
    PL.with(|p| f(&mut p.borrow_mut()))
}
#[derive(Clone, Debug)]
struct Pol;
impl Policy<u32> for Pol {
    fn clone_request(&self, req: &u32) -> Option<u32> {
        check!(*req < 1000, "the policy was asked to clone {req}, which is a clone itself");
        let no = pl(|l| l.picky) && choose(2, "policy: refuse to clone") == 1;
        let r = if no { None } else { Some(req + 1000) };
        obs!("policy clone({req}) -> {r:?}");
        pl(|l| l.cloned.insert(*req, r));
        r
    }
    fn can_retry(&self, req: &u32) -> bool {
        let yes = !(pl(|l| l.picky) && choose(2, "policy: refuse to retry") == 1);
        obs!("policy can_retry({req}) -> {yes}");
        pl(|l| l.retry.insert(*req, (l.now, yes)));
        yes
    }
}

struct Rq<F: std::future::Future> {
    r: Resp<F>,
    req: u32,
    t0: u64,
    /// delay before hedging, if enough data
    delay: Option<u64>,
    orig: usize,
    hedge: Option<(usize, u64)>,
    hedge_svc: Option<usize>,
    polled_at: Option<u64>,
    over: bool,
}

async fn run(c: Conf) {
    PL.with(|p| *p.borrow_mut() = PolLog { picky: c.picky, ..Default::default() });
    let inner: EnvSvc = env::svc(c.env);
    let period = Duration::from_millis(c.period);
    let hedge = if c.preset.is_empty() {
        Hedge::new(inner, Pol, c.min_points, c.percentile, period)
    } else {
        Hedge::new_with_mock_latencies(inner, Pol, c.min_points, c.percentile, period, c.preset)
    };
    let mut h = Handle::new(hedge);
    let mut now = 0u64;
    let mut rs: Vec<Rq<_>> = vec![];
    // the instances asked by the last readiness poll
    let mut asked: Vec<usize> = vec![];
    // (time of record, latency)
    let mut data: Vec<(u64, u64)> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Call,
        PollF(usize),
        DropF(usize),
        Adv(u64),
        Env(env::Act),
    }
    for step in 0..3 * c.warm + c.depth {
        let mut ops = vec![];
        let mut sp = vec![];
        if rs.len() < c.warm + c.reqs {
            match h.st {
                H::Idle => ops.push(Op::Poll),
                H::Waiting if h.flag.is() => ops.push(Op::Poll),
                H::Ready => ops.push(Op::Call),
                _ => {}
            }
        }
        for (i, r) in rs.iter().enumerate() {
            let r: &Rq<_> = r;
            if r.r.due() {
                ops.push(Op::PollF(i));
            } else if r.r.live() {
                sp.push(Op::PollF(i));
            }
            if r.r.live() {
                if c.merged {
                    ops.push(Op::DropF(i));
                } else {
                    sp.push(Op::DropF(i));
                }
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        // no latencies of weeks
        let calm = !rs.iter().any(|r| r.r.live());
        ops.extend(c.steps.iter().filter(|s| calm || **s < 1_000_000_000).map(|s| Op::Adv(*s)));
        if ops.is_empty() {
            break;
        }
        let d = if step < 3 * c.warm { 0 } else { deviate(sp.len() + 1, "spurious poll or drop") };
        let op = if step < 3 * c.warm {
            match step % 3 {
                0 => Op::Poll,
                1 => Op::Adv(1 + (step as u64 / 3) % 3),
                _ => Op::Env(env::Act::Complete(rs.last().unwrap().orig)),
            }
        } else if d > 0 { sp[d - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("t={now} {op:?}");
        let mut then_poll = None;
        match op {
            Op::Poll | Op::Call => {
                if matches!(op, Op::Poll) {
                    let before: Vec<usize> = env::w(|w| w.svcs.iter().map(|s| s.polls).collect());
                    let r = h.poll_ready().map(|r| r.map_err(|e| classify(&e)));
                    obs!("  -> {r:?}");
                    asked = env::w(|w| (0..w.svcs.len()).filter(|&i| w.svcs[i].polls > before.get(i).copied().unwrap_or(0)).collect());
                    let seen: Vec<Rd> = env::w(|w| asked.iter().map(|s| w.svcs[*s].seen).collect());
                    let ok = match &r {
                        Poll::Ready(Ok(())) => !seen.is_empty() && seen.iter().all(|s| *s == Rd::Ready),
                        Poll::Pending => seen.contains(&Rd::Pending),
                        Poll::Ready(Err(e)) => asked.iter().zip(&seen).any(|(s, rd)| matches!(rd, Rd::Failed(_)) && *e == Er::Env(EnvErr { ready: true, of: *s })),
                    };
                    check!(ok && (r.is_ready() || !seen.iter().any(|s| matches!(s, Rd::Failed(_)))), "readiness is {r:?}, the wrapped service says {seen:?}");
                }
                if h.st == H::Ready && (c.merged || matches!(op, Op::Call)) {
                    let req = 1 + rs.len() as u32;
                    let n = env::n_calls();
                    let r = h.call(req);
                    check!(env::n_calls() == n + 1, "a call dispatched {} requests at once", env::n_calls() - n);
                    let orig = env::w(|w| w.calls[n].1);
                    check!(env::w(|w| w.futs[orig].req) == req, "the original request was altered");
                    let pts: Vec<u64> = if c.preset.is_empty() {
                        let k = now / c.period;
                        data.iter().filter(|(t, _)| k > 0 && t / c.period == k - 1).map(|d| d.1).collect()
                    } else {
                        c.preset.to_vec()
                    };
                    let delay = (pts.len() as u64 >= c.min_points).then(|| quantile(pts, c.percentile as f64));
                    obs!("  expected delay {delay:?}");
                    rs.push(Rq { r, req, t0: now, delay, orig, hedge: None, hedge_svc: None, polled_at: None, over: false });
                    then_poll = Some(rs.len() - 1);
                }
            }
            Op::PollF(i) => then_poll = Some(i),
            Op::DropF(i) => {
                rs[i].r.drop_fut();
                rs[i].over = true;
                gone(&rs[i]);
            }
            Op::Adv(s) => {
                advance(s).await;
                now += s;
                pl(|l| l.now = now);
            }
            Op::Env(a) => {
                env::act(a);
                if let env::Act::Complete(f) = a {
                    then_poll = rs.iter().position(|r| r.orig == f || r.hedge.map(|h| h.0) == Some(f));
                }
            }
        }
        if let Some(i) = then_poll {
            if matches!(op, Op::PollF(_)) || (c.merged && rs[i].r.due()) {
                poll_one(&mut rs[i], now, &mut data);
            }
        }
        if h.st == H::Waiting && !h.flag.is() {
            let now: Vec<Rd> = env::w(|w| asked.iter().map(|s| w.svcs[*s].state).collect());
            check!(now.contains(&Rd::Pending), "the caller waits for readiness and was not woken, the wrapped service is {now:?}");
        }
        // everything a pending request waits for must have woken it
        for r in &rs {
            if !r.r.live() || !r.r.polled || r.r.flag.is() {
                continue;
            }
            check!(env::expected(r.orig).is_none(), "request {} was not woken when its original finished", r.req);
            if let Some((f, _)) = r.hedge {
                check!(env::expected(f).is_none(), "request {} was not woken when its hedge finished", r.req);
            } else if let (Some(d), Some(Some(_))) = (r.delay, pl(|l| l.cloned.get(&r.req).copied())) {
                match r.hedge_svc {
                    None => check!(
                        now < r.t0 + hi(d) || pl(|l| l.retry.contains_key(&(r.req + 1000))),
                        "request {} sent at {}ms was not woken at the hedging delay of {d}ms (now {now}ms)", r.req, r.t0
                    ),
                    Some(s) => {
                        let (st, seen) = env::w(|w| (w.svcs[s].state, w.svcs[s].seen));
                        check!(st == seen, "request {} was not woken when the service clone became {st:?}", r.req);
                    }
                }
            }
        }
    }
}

fn gone<F: std::future::Future>(r: &Rq<F>) {
    check!(env::w(|w| w.futs[r.orig].dropped), "the original request outlives the hedged call");
    if let Some((f, _)) = r.hedge {
        check!(env::w(|w| w.futs[f].dropped), "the hedge outlives the hedged call");
    }
    if let Some(s) = r.hedge_svc {
        check!(env::w(|w| w.svcs[s].dropped), "the service clone of the hedge outlives the hedged call");
    }
}

fn poll_one<F>(r: &mut Rq<F>, now: u64, data: &mut Vec<(u64, u64)>)
where
    F: std::future::Future<Output = Result<env::Rsp, tower::BoxError>>,
{
    let n = env::n_calls();
    let polls: Vec<usize> = env::w(|w| w.svcs.iter().map(|s| s.polls).collect());
    r.r.poll();
    r.polled_at = Some(now);
    // which service clone did it ask for readiness?
    for (s, p) in env::w(|w| w.svcs.iter().map(|s| s.polls).enumerate().collect::<Vec<_>>()) {
        if p > polls.get(s).copied().unwrap_or(0) {
            check!(r.hedge_svc.is_none() || r.hedge_svc == Some(s), "the hedge of request {} asked two service clones", r.req);
            r.hedge_svc = Some(s);
        }
    }
    let cl = pl(|l| l.cloned.get(&r.req).copied().flatten());
    for k in n..env::n_calls() {
        let f = env::w(|w| w.calls[k].1);
        let q = env::w(|w| w.futs[f].req);
        check!(Some(q) == cl, "request {q} was dispatched while polling request {}, whose policy clone is {cl:?}", r.req);
        check!(r.hedge.is_none(), "request {} was hedged twice", r.req);
        match r.delay {
            None => fail!("request {} was hedged although too few latencies were recorded", r.req),
            Some(d) => check!(now >= r.t0 + d, "request {} sent at {}ms was hedged at {now}ms, the delay is {d}ms", r.req, r.t0),
        }
        match pl(|l| l.retry.get(&q).copied()) {
            Some((_, true)) => {}
            x => fail!("request {} was hedged although the policy did not agree: {x:?}", r.req),
        }
        r.hedge = Some((f, now));
    }
    if let Some((t, _)) = pl(|l| l.retry.get(&(r.req + 1000)).copied()) {
        check!(r.delay.map_or(false, |d| t >= r.t0 + d), "the policy was asked whether to retry request {} before the delay", r.req);
    }
    let a = env::expected(r.orig).map(|x| x.map_err(Er::Env));
    let b = match r.hedge {
        Some((f, _)) => env::expected(f).map(|x| x.map_err(Er::Env)),
        None => r.hedge_svc.and_then(|s| match env::w(|w| w.svcs[s].seen) {
            Rd::Failed(_) => Some(Err(Er::Env(EnvErr { ready: true, of: s }))),
            _ => None,
        }),
    };
    let got = r.r.out.as_ref().map(|o| match o {
        Ok(x) => Ok(*x),
        Err(e) => Err(classify(e)),
    });
    obs!("  poll {} -> {got:?}", r.req);
    match (&got, &a, &b) {
        (None, None, None) => {}
        (Some(_), _, _) if got == a || got == b => {}
        _ => fail!("request {} answered {got:?}; original {a:?}, hedge {b:?}", r.req),
    }
    if got.is_none() {
        // must the hedge have been sent by now?
        if let (Some(d), Some(_)) = (r.delay, cl) {
            let refused = matches!(pl(|l| l.retry.get(&(r.req + 1000)).copied()), Some((_, false)));
            if now >= r.t0 + hi(d) && r.hedge.is_none() && !refused {
                let st = r.hedge_svc.map(|s| env::w(|w| w.svcs[s].seen));
                check!(st == Some(Rd::Pending), "request {} sent at {}ms is not hedged at {now}ms although the delay of {d}ms has passed (service clone: {st:?})", r.req, r.t0);
            }
        }
    } else {
        r.over = true;
        gone(r);
        if let Some(Ok(x)) = got {
            let sent = if x.fut == r.orig { r.t0 } else { r.hedge.unwrap().1 };
            data.push((now, now - sent));
        }
    }
}

fn quantile(mut v: Vec<u64>, q: f64) -> u64 {
    if v.is_empty() {
        return 0;
    }
    v.sort();
    let k = ((q * v.len() as f64).ceil() as usize).clamp(1, v.len());
    v[k - 1]
}

fn c14(t: Tier) -> Vec<Scenario> {
    const E: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Pend, O::Ok, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    const CALM: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Pend], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    let base = Conf { reqs: 1, depth: 0, env: E, picky: true, percentile: 0.5, min_points: 2, period: 1_000_000, preset: &[7, 9, 9, 30], steps: &[1, 8, 9], merged: false, warm: 0 };
    let mut v = vec![];
    let mut add = |n: &str, dev: u32, c: Conf| {
        let name = format!("{n} requests={} depth={} picky={}", c.reqs, c.depth, c.picky);
        v.push(Scenario::new(name, dev, move || run(c.clone())));
    };
    add("one", t.pick(1, 2), Conf { depth: t.pick(9, 10), ..base.clone() });
    add("one, calm", t.pick(2, 3), Conf { depth: t.pick(9, 11), env: CALM, steps: &[8, 1], ..base.clone() });
    add("two", t.pick(0, 1), Conf { reqs: 2, depth: t.pick(8, 10), env: CALM, picky: false, steps: &[9, 4], ..base.clone() });
    add("two, picky", 0, Conf { reqs: 2, depth: t.pick(8, 9), env: CALM, steps: &[9], ..base.clone() });
    add("two, merged", 0, Conf { reqs: 2, depth: t.pick(7, 9), env: E, picky: false, steps: &[9, 4], merged: true, ..base.clone() });
    add("too few data", 1, Conf { depth: t.pick(7, 8), min_points: 5, ..base.clone() });
    add("just enough data", 1, Conf { depth: t.pick(7, 8), min_points: 4, percentile: 1.0, steps: &[29, 1], ..base.clone() });
    add("zero delay", 1, Conf { depth: t.pick(7, 8), preset: &[0, 0, 0], steps: &[1], ..base.clone() });
    const MANY: &[u64] = &[
        31, 12, 5, 77, 8, 140, 22, 9, 61, 3, 18, 44, 1, 95, 27, 6, 33, 210, 15, 2, 52, 70, 11, 38, 4, 120, 19, 7, 88, 25, 13, 47, 10, 29, 66, 17, 300, 41, 14, 1000,
    ];
    let many = Conf { depth: t.pick(7, 8), preset: MANY, picky: false, ..base };
    add("40 data points, q=0.9", 0, Conf { percentile: 0.9, steps: &[119, 1], ..many.clone() });
    add("40 data points, q=0.25", 0, Conf { percentile: 0.25, steps: &[9, 1], ..many.clone() });
    add("40 data points, q=0.99", 0, Conf { percentile: 0.99, min_points: 40, steps: &[999, 1], ..many.clone() });
    add("40 data points, too few", 0, Conf { min_points: 41, steps: &[22, 1000], ..many.clone() });
    add("hours", 0, Conf { preset: &[7_200_000, 3_600_000, 5_000], percentile: 0.6, period: 1 << 40, steps: &[3_599_999, 3602], ..many });
    v
}

fn c15(t: Tier) -> Vec<Scenario> {
    const E: Cfg = Cfg { call: &[O::Pend], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    const EOK: Cfg = Cfg { call: &[O::Pend], ..env::ALWAYS };
    let base = Conf { reqs: 3, depth: 0, env: E, picky: false, percentile: 0.5, min_points: 1, period: 20, preset: &[], steps: &[3, 8, 20, 40], merged: true, warm: 0 };
    let mut v = vec![];
    let mut add = |n: &str, c: Conf| {
        let name = format!("{n} requests={} depth={} q={} min={} period={}ms", c.reqs, c.depth, c.percentile, c.min_points, c.period);
        v.push(Scenario::new(name, 0, move || run(c.clone())));
    };
    add("success, failure and cancellation", Conf { depth: t.pick(8, 10), ..base.clone() });
    add("two data points", Conf { reqs: 4, depth: t.pick(9, 10), min_points: 2, steps: &[3, 17], env: EOK, percentile: 0.5, ..base.clone() });
    add("two data points, maximum", Conf { reqs: 4, depth: t.pick(8, 10), min_points: 2, steps: &[5, 15], env: EOK, percentile: 1.0, ..base.clone() });
    add("no minimum", Conf { reqs: 3, depth: t.pick(8, 9), min_points: 0, env: EOK, percentile: 0.9, ..base.clone() });
    add("after 30 requests", Conf { reqs: 2, depth: t.pick(6, 8), warm: 30, min_points: 30, env: EOK, percentile: 0.5, period: 100, steps: &[1, 2, 40, 100], ..base.clone() });
    add("after 29 requests", Conf { reqs: 2, depth: t.pick(6, 8), warm: 29, min_points: 30, env: EOK, percentile: 0.9, period: 100, steps: &[1, 3, 42, 100], ..base.clone() });
    add("seconds", Conf { reqs: 3, depth: t.pick(8, 9), period: 20_000, env: EOK, steps: &[3000, 17_000, 10], ..base.clone() });
    const LONG: u64 = 4 << 32;
    add("gaps of 2^32 periods", Conf { reqs: 3, depth: t.pick(8, 9), period: 4, env: EOK, steps: &[1, 4, LONG, LONG + 4], ..base });
    v
}
