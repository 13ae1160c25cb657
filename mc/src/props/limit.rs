//! Concurrency limit and rate limit.
use crate::core::{choose, deviate, Scenario};
use crate::drive::{Handle, H};
use crate::env::{self, Cfg, EnvSvc, Rsp, O, R};
use crate::sched::{advance, settle, Sched};
use crate::{check, obs, Prop, Tier};
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tower::limit::{ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer, RateLimit};
use tower::{Layer, Service};

pub const C06: Prop = Prop {
    id: "C06",
    scenarios: c06,
    assumptions: &[
        "tokio's semaphore and PollSemaphore are the real ones and trusted not to be wrong by themselves",
        "tasks are interleaved at poll granularity (the limiter holds no locks of its own across polls)",
    ],
};

const INNER: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Pend], fin: &[O::Ok, O::Err], dev: true, ..env::ALWAYS };
/// readiness may also fail, for good or (heal) just once, and be withdrawn
const ERRS: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], revoke: true, ..INNER };

fn mk(kind: usize, max: usize, n: usize, inner: Cfg) -> Vec<ConcurrencyLimit<EnvSvc>> {
    match kind {
        // clones of one limiter
        0 => {
            let first = ConcurrencyLimitLayer::new(max).layer(env::svc(inner));
            let mut v: Vec<_> = (1..n).map(|_| first.clone()).collect();
            v.insert(0, first);
            v
        }
        // independent services under one global layer
        1 => {
            let l = GlobalConcurrencyLimitLayer::new(max);
            let l2 = l.clone();
            (0..n).map(|i| if i % 2 == 0 { l.layer(env::svc(inner)) } else { l2.layer(env::svc(inner)) }).collect()
        }
        // explicit shared semaphore
        _ => {
            let s = Arc::new(tokio::sync::Semaphore::new(max));
            let l = GlobalConcurrencyLimitLayer::with_semaphore(s.clone());
            (0..n)
                .map(|i| if i == 0 { l.layer(env::svc(inner)) } else { ConcurrencyLimit::with_semaphore(env::svc(inner), s.clone()) })
                .collect()
        }
    }
}

fn c06(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (max, n, depth, dev) in t.pick(vec![(1, 2, 8, 1), (2, 3, 7, 0)], vec![(1, 2, 10, 2), (2, 3, 9, 1), (1, 3, 9, 1)]) {
        v.push(Scenario::new(format!("ops max={max} handles={n} depth={depth}"), dev, move || c06_ops(max, n, depth, INNER)));
    }
    for (max, n, depth, heal, dev) in t.pick(
        vec![(1, 1, 8, true, 3), (1, 2, 7, true, 2), (1, 2, 7, false, 2), (2, 2, 6, true, 2)],
        vec![(1, 1, 12, true, 4), (1, 2, 9, true, 2), (1, 2, 9, false, 2), (1, 2, 7, true, 3), (2, 3, 7, true, 2)],
    ) {
        v.push(Scenario::new(format!("ops with readiness errors max={max} handles={n} depth={depth} transient={heal}"), dev, move || c06_ops(max, n, depth, Cfg { heal, ..ERRS })));
    }
    // a limit of zero never admits anything
    v.push(Scenario::new("ops max=0 handles=2", 0, move || c06_ops(0, 2, t.pick(5, 7), INNER)));
    // larger limits, explored from a state in which every slot is taken
    for max in t.pick(vec![3usize, 4, 6], vec![3, 4, 5, 6, 8]) {
        let depth = t.pick(3, 4);
        v.push(Scenario::new(format!("full max={max} handles={} depth={depth}", max + 2), 0, move || c06_full(max, max + 2, depth)));
    }
    let sizes: &'static [usize] = &[1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025];
    v.push(Scenario::new("filling and draining limits up to 1025", 0, move || c06_sizes(sizes)));
    for (max, n, reqs, dev) in t.pick(vec![(1, 2, 2, 3), (1, 3, 1, 3), (2, 3, 1, 2)], vec![(1, 2, 3, 3), (1, 3, 1, 4), (1, 3, 2, 1), (2, 3, 1, 3), (2, 3, 2, 0)]) {
        v.push(Scenario::new(format!("tasks max={max} clients={n} requests={reqs}"), dev, move || c06_tasks(max, n, reqs)));
    }
    v
}

/// All operation sequences on `n` handles, checked after every operation against the accounting oracle.
async fn c06_ops(max: usize, n: usize, depth: usize, inner: Cfg) {
    let kind = choose(3, "construction");
    let hs: Vec<Handle<ConcurrencyLimit<EnvSvc>>> = mk(kind, max, n, inner).into_iter().map(Handle::new).collect();
    c06_from(max, n, depth, hs, vec![]).await
}

/// As `c06_ops`, but from a state in which all `max` slots are taken: some by responses in flight,
/// the others by ready handles, with the remaining handles waiting.
async fn c06_full(max: usize, n: usize, depth: usize) {
    const IN: Cfg = Cfg { ready: &[R::Ready], ..INNER };
    let kind = choose(3, "construction");
    let mut hs: Vec<Handle<ConcurrencyLimit<EnvSvc>>> = mk(kind, max, n, IN).into_iter().map(Handle::new).collect();
    let mut resps = vec![];
    let called = choose(max + 1, "calls in flight");
    for i in 0..n {
        let r = hs[i].poll_ready();
        check!(r.is_pending() == (i >= max), "poll_ready of handle {i} returned {r:?} with a limit of {max} and {i} slots taken");
        if i < called {
            resps.push(hs[i].call(7));
        }
    }
    c06_from(max, n, depth, hs, resps).await
}

/// A whole limit is taken, partly given back (from either end, by completion or cancellation), and
/// taken again.
async fn c06_sizes(sizes: &'static [usize]) {
    const IN: Cfg = Cfg { ready: &[R::Ready], quiet: true, ..INNER };
    let max = sizes[choose(sizes.len(), "limit")];
    let kind = choose(5, "construction");
    let mut hs: Vec<Handle<ConcurrencyLimit<EnvSvc>>> = match kind {
        0..=2 => mk(kind, max, max + 3, IN),
        3 => {
            let a = ConcurrencyLimit::new(env::svc(IN), max);
            (0..max + 3).map(|_| a.clone()).collect()
        }
        _ => {
            let a = tower::ServiceBuilder::new().concurrency_limit(max).service(env::svc(IN));
            (0..max + 3).map(|_| a.clone()).collect()
        }
    }
    .into_iter()
    .map(Handle::new)
    .collect();
    let mut rs = vec![];
    for i in 0..max + 3 {
        let r = hs[i].poll_ready();
        check!(r.is_pending() == (i >= max), "poll_ready of handle {i} returned {r:?} with a limit of {max} and {i} slots taken");
        if i < max {
            rs.push(hs[i].call(i as u32));
        }
    }
    let back = [1, 2, 3, max / 2, max].map(|k| k.min(max))[choose(5, "how many are given back")];
    let (cancel, rear) = (choose(2, "cancelled") == 1, choose(2, "from the rear") == 1);
    obs!("{back} of {max} are given back, cancelled: {cancel}, from the rear: {rear}");
    for k in 0..back {
        let i = if rear { max - 1 - k } else { k };
        if !cancel {
            env::complete(i, true);
            check!(rs[i].poll(), "request {i} does not end");
            check!(rs[i].out == Some(Ok(Rsp { svc: env::w(|w| w.futs[i].svc), fut: i, req: i as u32 })), "request {i} ended with {:?}", rs[i].out);
        }
        rs[i].drop_fut();
    }
    let woken = hs[max..].iter().filter(|h| h.flag.is()).count();
    check!(woken == back.min(3), "{woken} of three waiting callers were woken by {back} free slots");
    let mut got = 0;
    for _ in 0..2 {
        for h in hs.iter_mut().rev() {
            if h.st == H::Idle || h.st == H::Waiting {
                if h.poll_ready().is_ready() {
                    got += 1;
                }
            }
        }
    }
    check!(got == back, "{back} slots of {max} are free, {got} callers became ready");
}

async fn c06_from(
    max: usize,
    n: usize,
    depth: usize,
    mut hs: Vec<Handle<ConcurrencyLimit<EnvSvc>>>,
    mut resps: Vec<crate::drive::Resp<<ConcurrencyLimit<EnvSvc> as Service<u32>>::Future>>,
) {
    for _ in 0..depth {
        // enumerate the enabled operations
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll(usize),
            Call(usize),
            DropH(usize),
            Clone(usize),
            PollF(usize),
            DropF(usize),
            Env(env::Act),
        }
        let mut ops = vec![];
        let mut again = vec![];
        for (i, h) in hs.iter().enumerate() {
            if !h.alive() {
                continue;
            }
            if h.st == H::Idle || h.flag.is() {
                ops.push(Op::Poll(i));
            } else {
                again.push(Op::Poll(i));
            }
            if h.st == H::Ready {
                ops.push(Op::Call(i));
            }
            if h.st != H::Idle {
                ops.push(Op::DropH(i));
            }
            if hs.len() < n + 1 && i == 0 {
                ops.push(Op::Clone(i));
            }
        }
        for (i, r) in resps.iter().enumerate() {
            if r.due() {
                ops.push(Op::PollF(i));
            }
            if r.fut.is_some() {
                ops.push(Op::DropF(i));
            }
        }
        for a in env::acts() {
            ops.push(Op::Env(a));
        }
        if ops.is_empty() {
            return;
        }
        let sp = deviate(again.len() + 1, "poll again");
        let op = if sp > 0 { again[sp - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let r = hs[i].poll_ready();
                obs!("  -> {r:?}");
                let id = hs[i].svc.as_ref().unwrap().get_ref().id;
                let seen = env::w(|w| w.svcs[id].seen);
                match r {
                    Poll::Ready(Ok(())) => check!(seen == env::Rd::Ready, "ready although the inner service last answered {seen:?}"),
                    Poll::Ready(Err(e)) => check!(
                        e == (env::EnvErr { ready: true, of: id }) && matches!(seen, env::Rd::Failed(_)),
                        "readiness error {e} with the inner service {seen:?}"
                    ),
                    Poll::Pending => check!(!matches!(seen, env::Rd::Failed(_)) || env::w(|w| w.svcs[id].cfg.heal), "pending although the inner service has failed"),
                }
            }
            Op::Call(i) => resps.push(hs[i].call(7)),
            Op::DropH(i) => hs[i].drop_svc(),
            Op::Clone(i) => {
                let h = hs[i].dup();
                hs.push(h)
            }
            Op::PollF(i) => {
                let d = resps[i].poll_keep(true);
                obs!("  -> done={d}");
            }
            Op::DropF(i) => resps[i].drop_fut(),
            Op::Env(a) => env::act(a),
        }
        settle().await;
        // oracle
        let inflight = resps.iter().filter(|r| r.live()).count();
        check!(inflight <= max, "{inflight} responses in flight with a limit of {max}");
        let undropped = resps.iter().filter(|r| r.fut.is_some()).count();
        let ready = hs.iter().filter(|h| h.st == H::Ready).count();
        check!(inflight + ready <= max, "{inflight} responses in flight and {ready} handles ready with a limit of {max}");
        // handles which may hold a slot: ready, woken, or waiting for their own inner service
        let inner_pending = |h: &Handle<ConcurrencyLimit<EnvSvc>>| {
            let id = h.svc.as_ref().unwrap().get_ref().id;
            env::w(|w| w.svcs[id].state == env::Rd::Pending)
        };
        let failed = hs.iter().filter(|h| h.st == H::Failed).count();
        let woken = hs.iter().filter(|h| h.st == H::Waiting && h.flag.is()).count();
        let blocked_inner = hs.iter().filter(|h| h.st == H::Waiting && !h.flag.is() && inner_pending(h)).count();
        let starving = hs.iter().filter(|h| h.st == H::Waiting && !h.flag.is() && !inner_pending(h)).count();
        if starving > 0 {
            check!(
                undropped + ready + failed + woken + blocked_inner >= max,
                "a handle waits although only {undropped} responses are alive, {ready} handles are ready, {failed} failed, {woken} woken, {blocked_inner} wait for their inner service: below the limit {max}"
            );
        }
        // a handle whose inner service is ready and which just became woken must be able to proceed
        if let Op::Poll(i) = op {
            if hs[i].st == H::Waiting && !inner_pending(&hs[i]) {
                let others = undropped + hs.iter().filter(|h| matches!(h.st, H::Ready | H::Failed) || (h.st == H::Waiting && (h.flag.is() || inner_pending(h)))).count();
                check!(others >= max, "poll_ready returned Pending although only {others} of {max} slots can be in use");
            }
        }
    }
}

async fn pause() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

/// Client tasks in every order, with cancellations; every client not cancelled finishes.
async fn c06_tasks(max: usize, n: usize, reqs: usize) {
    let kind = choose(2, "construction");
    let mut s = Sched::new();
    for (c, mut svc) in mk(kind, max, n, INNER).into_iter().enumerate() {
        let i = s.spawn(format!("client{c}"), async move {
            for r in 0..reqs {
                let rd = std::future::poll_fn(|cx| svc.poll_ready(cx)).await;
                check!(rd.is_ok(), "unexpected readiness error");
                if deviate(2, "pause between ready and call") == 1 {
                    pause().await;
                }
                let before = env::n_calls();
                let f = svc.call((c * 10 + r) as u32);
                check!(env::n_calls() == before + 1, "the call was not passed to the inner service exactly once");
                let out = f.await;
                obs!("client{c} got {out:?}");
                let fid = env::w(|w| w.futs.iter().position(|f| f.req == (c * 10 + r) as u32)).unwrap();
                check!(Some(out) == env::expected(fid), "response altered: {out:?}");
            }
        });
        s.tasks[i].droppable = true;
    }
    let inv = move |_: &Sched| {
        let inflight = env::w(|w| w.futs.iter().filter(|f| !f.dropped && !f.taken).count());
        check!(inflight <= max, "{inflight} inner responses in flight with a limit of {max}");
    };
    s.run(true, 400, inv).await;
    s.assert_no_lost_wakeup().await;
    for (i, t) in s.tasks.iter().enumerate() {
        check!(t.fut.is_none(), "client {i} never got through although every outstanding request finished");
    }
}

// ---------------------------------------------------------------------------------------------

pub const C07: Prop = Prop {
    id: "C07",
    scenarios: c07,
    assumptions: &["virtual time with whole-millisecond steps (tokio's paused clock)"],
};

fn c07(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (num, per, depth) in t.pick(vec![(1u64, 4u64, 9), (2, 4, 10), (3, 4, 9)], vec![(1, 4, 12), (2, 4, 12), (3, 4, 12), (4, 3, 12)]) {
        v.push(Scenario::new(format!("num={num} per={per}ms depth={depth}"), t.pick(1, 2), move || c07_ops(num, per, depth, false)));
    }
    for (num, per, depth, dev) in t.pick(vec![(1u64, 4u64, 8, 2), (2, 4, 8, 2)], vec![(1, 4, 9, 3), (2, 4, 9, 3), (3, 3, 9, 2)]) {
        v.push(Scenario::new(format!("readiness errors num={num} per={per}ms depth={depth}"), dev, move || c07_ops(num, per, depth, true)));
    }
    for (num, unit) in t.pick(
        vec![(5u64, 1u64), (10, 250), (2, 400), (64, 1), (3, 900_000), (300, 15_000)],
        vec![(5, 1), (10, 250), (2, 400), (3, 10_000), (64, 1), (3, 900_000), (1, 86_400_000), (300, 15_000), (1000, 250)],
    ) {
        let depth = t.pick(6, 7) - (num > 100) as usize;
        v.push(Scenario::new(format!("bursts num={num} per={}ms depth={depth}", 4 * unit), 0, move || c07_burst(num, unit, depth)));
    }
    v
}

/// Bursts against larger limits and longer periods (of four units).
async fn c07_burst(num: u64, unit: u64, depth: usize) {
    let per = 4;
    let via = choose(2, "construction");
    let inner = env::svc(env::ALWAYS);
    let svc = if via == 0 {
        RateLimit::new(inner, tower::limit::rate::Rate::new(num, Duration::from_millis(per * unit)))
    } else {
        tower::limit::RateLimitLayer::new(num, Duration::from_millis(per * unit)).layer(inner)
    };
    let mut h = Handle::new(svc);
    let mut now = 0u64;
    let mut calls: Vec<u64> = vec![];
    let mut bursts = vec![1, num / 2, num - 1, num, 2 * num + 1];
    bursts.retain(|b| *b > 0);
    bursts.dedup();
    let steps = [1, per - 1, per, 3 * per];
    for _ in 0..depth {
        let limited = h.st == H::Waiting && !h.flag.is();
        let k = choose(steps.len() + if limited { 0 } else { bursts.len() }, "op");
        if k < steps.len() {
            advance(steps[k] * unit).await;
            now += steps[k];
            if limited {
                let recent = calls.iter().filter(|&&c| now - c < per).count() as u64;
                check!(recent >= num || h.flag.is(), "the waiting caller was not woken at t={now}: {recent} calls in the last {per} units, limit {num}");
            }
            continue;
        }
        let mut n = 0;
        while n < bursts[k - steps.len()] {
            if h.poll_ready().is_pending() {
                let recent = calls.iter().filter(|&&c| now - c < per).count() as u64;
                check!(recent >= num, "limiter withholds readiness at t={now} although only {recent} calls were made in the last {per} units (limit {num}); calls at {:?}", tally(&calls));
                break;
            }
            let before = env::n_calls();
            let _ = h.call(1u32);
            check!(env::n_calls() == before + 1, "call not forwarded");
            calls.push(now);
            n += 1;
        }
        obs!("t={now} {n} calls");
        check!(calls.is_empty() || windows_ok(&calls, num as usize, per), "calls at {:?} cannot be covered by windows of {per} units with at most {num} calls each", tally(&calls));
    }
}
/// (time, calls)
fn tally(calls: &[u64]) -> Vec<(u64, usize)> {
    let mut v: Vec<(u64, usize)> = vec![];
    for &c in calls {
        match v.last_mut() {
            Some((t, n)) if *t == c => *n += 1,
            _ => v.push((c, 1)),
        }
    }
    v
}

async fn c07_ops(num: u64, per: u64, depth: usize, errs: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend], dev: true, ..env::ALWAYS };
    const FAIL: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], heal: true, revoke: true, ..IN };
    let via = choose(2, "construction");
    let inner = env::svc(if errs { FAIL } else { IN });
    let svc = if via == 0 {
        RateLimit::new(inner, tower::limit::rate::Rate::new(num, Duration::from_millis(per)))
    } else {
        tower::limit::RateLimitLayer::new(num, Duration::from_millis(per)).layer(inner)
    };
    let mut h = Handle::new(svc);
    let mut now = 0u64;
    let mut calls: Vec<u64> = vec![];
    let mut limited_since_poll = false;
    for _ in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll,
            Call,
            Adv(u64),
            Env(env::Act),
        }
        let mut ops = vec![];
        if h.st == H::Ready {
            if deviate(2, "poll again") == 1 {
                ops.push(Op::Poll);
            } else {
                ops.push(Op::Call);
            }
        } else if matches!(h.st, H::Idle | H::Failed) || h.flag.is() {
            ops.push(Op::Poll);
        } else if deviate(2, "spurious poll") == 1 {
            ops.push(Op::Poll);
        }
        for d in [1, per - 1, per] {
            if !ops.iter().any(|o| matches!(o, Op::Adv(x) if *x == d)) {
                ops.push(Op::Adv(d));
            }
        }
        for a in env::acts() {
            ops.push(Op::Env(a));
        }
        let op = ops[choose(ops.len(), "op")];
        obs!("t={now} {op:?}");
        match op {
            Op::Poll => {
                let r = h.poll_ready();
                obs!("  -> {r:?}");
                let (st, seen) = env::w(|w| (w.svcs[0].state, w.svcs[0].seen));
                match r {
                    Poll::Ready(Ok(())) => check!(seen == env::Rd::Ready, "ready although the inner service last answered {seen:?}"),
                    Poll::Ready(Err(e)) => check!(e == (env::EnvErr { ready: true, of: 0 }) && matches!(seen, env::Rd::Failed(_)), "readiness error {e} with the inner service {seen:?}"),
                    Poll::Pending => {}
                }
                let inner_pending = st == env::Rd::Pending;
                limited_since_poll = r.is_pending() && !inner_pending;
                if limited_since_poll {
                    let recent = calls.iter().filter(|&&c| now - c < per).count() as u64;
                    check!(
                        recent >= num,
                        "limiter withholds readiness at t={now} although only {recent} calls were made in the last {per}ms (limit {num}); calls at {calls:?}"
                    );
                }
            }
            Op::Call => {
                let before = env::n_calls();
                let _ = h.call(1u32);
                check!(env::n_calls() == before + 1, "call not forwarded");
                calls.push(now);
                // greedy partition into windows of at least `per` with at most `num` calls each
                check!(windows_ok(&calls, num as usize, per), "calls at {calls:?} cannot be covered by windows of {per}ms with at most {num} calls each");
            }
            Op::Adv(d) => {
                advance(d).await;
                now += d;
                if limited_since_poll && h.st == H::Waiting {
                    let recent = calls.iter().filter(|&&c| now - c < per).count() as u64;
                    check!(
                        recent >= num || h.flag.is(),
                        "the waiting caller was not woken at t={now}: {recent} calls in the last {per}ms, limit {num}, calls {calls:?}"
                    );
                }
            }
            Op::Env(a) => env::act(a),
        }
    }
}

/// Is there a choice of window starts, at least `per` apart, such that every call lies in exactly
/// one window [start, start+per) and no window holds more than `num` calls?  Exact decision by
/// dynamic programming over (window start, calls in it).
fn windows_ok(calls: &[u64], num: usize, per: u64) -> bool {
    let t0 = calls[0] + per; // shift so that starts do not underflow
    let mut cur: Vec<(u64, usize)> = (t0 - per + 1..=t0).map(|s| (s, 1)).collect();
    for c in calls[1..].iter().map(|c| c + per) {
        let mut next: Vec<(u64, usize)> = vec![];
        for &(s, k) in &cur {
            if c < s + per {
                if k < num {
                    next.push((s, k + 1));
                }
            } else {
                for ns in (s + per).max(c + 1 - per)..=c {
                    next.push((ns, 1));
                }
            }
        }
        next.sort_unstable();
        next.dedup();
        cur = next;
    }
    !cur.is_empty()
}
