//! LoadShed (C08), Timeout (C09), Retry (C10).
use crate::core::{choose, deviate, flip, Scenario};
use crate::drive::{classify, Er, Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvRes, EnvSvc, Gate, Rd, Rsp, O, R};
use crate::sched::{advance, settle};
use crate::{check, fail, obs, Prop, Tier};
use std::cell::RefCell;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::load_shed::{LoadShed, LoadShedLayer};
use tower::retry::{Policy, Retry, RetryLayer};
use tower::timeout::{Timeout, TimeoutLayer};
use tower::{Layer, Service};

pub const C08: Prop = Prop { id: "C08", scenarios: c08, assumptions: &["calls without a preceding readiness poll are made too (they must be rejected), but none after a readiness error"] };
pub const C09: Prop = Prop { id: "C09", scenarios: c09, assumptions: &["virtual time with whole-millisecond steps (tokio's paused clock and timers are trusted; tokio itself caps timers at 30 years, so `maximum` means: not within 27 years)"] };
pub const C10: Prop = Prop { id: "C10", scenarios: c10, assumptions: &["the caller respects the poll_ready/call contract"] };

// ------------------------------------------------------------------------------------------ C08

fn c08(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, depth, dev) in t.pick(vec![(1, 9, 2), (2, 8, 1), (3, 7, 0)], vec![(1, 12, 3), (2, 10, 2), (3, 9, 1)]) {
        v.push(Scenario::new(format!("ops clones<={n} depth={depth}"), dev, move || c08_ops(n, depth, false, false)));
    }
    for (n, depth, dev) in t.pick(vec![(1, 8, 2), (2, 7, 0)], vec![(1, 11, 3), (2, 8, 1)]) {
        v.push(Scenario::new(format!("ops with transient readiness errors clones<={n} depth={depth}"), dev, move || c08_ops(n, depth, true, false)));
    }
    for (n, depth, dev) in t.pick(vec![(1, 60, 2), (2, 60, 2)], vec![(1, 200, 2), (1, 60, 3), (3, 90, 2)]) {
        v.push(Scenario::new(format!("long run clones<={n} operations={depth}"), dev, move || c08_ops(n, depth, true, true)));
    }
    v
}

/// `long`: one operation after the other; everything else is a deviation.
async fn c08_ops(n: usize, depth: usize, heal: bool, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], revoke: true, ..env::ALWAYS };
    const LONG: Cfg = Cfg { dev: true, ..IN };
    let inner = env::svc(if long { Cfg { heal, ..LONG } } else { Cfg { heal, ..IN } });
    let first = if choose(2, "construction") == 0 { LoadShed::new(inner) } else { LoadShedLayer::new().layer(inner) };
    let mut hs: Vec<(Handle<LoadShed<EnvSvc>>, bool, usize)> = vec![(Handle::new(first), false, 0)];
    let mut resps: Vec<(Resp<_>, Option<usize>, bool)> = vec![];
    for _ in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll(usize),
            Call(usize),
            Clone(usize),
            PollF(usize),
            Env(env::Act),
        }
        let mut ops = vec![];
        for (i, (h, _, _)) in hs.iter().enumerate() {
            if h.st != H::Failed || heal {
                ops.push(Op::Poll(i));
            }
            // also without asking first: such a call has to be rejected
            if h.st == H::Ready || h.st == H::Idle && !resps.last().is_some_and(|r: &(Resp<_>, Option<usize>, bool)| r.2) {
                ops.push(Op::Call(i));
            }
        }
        if hs.len() < n {
            for i in 0..hs.len() {
                ops.push(Op::Clone(i));
            }
        }
        for (i, (r, _, _)) in resps.iter().enumerate() {
            let r: &Resp<_> = r;
            if r.due() {
                ops.push(Op::PollF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let op = if long {
            ops.sort_by_key(|o| match o {
                Op::PollF(_) => 0,
                Op::Env(_) => 1,
                Op::Call(i) if hs[*i].0.st == H::Ready => 2,
                Op::Poll(i) if hs[*i].0.st != H::Ready => 3,
                _ => 4,
            });
            ops[deviate(ops.len(), "op")]
        } else {
            ops[choose(ops.len(), "op")]
        };
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let id = hs[i].2;
                let before = env::w(|w| w.svcs[id].polls);
                let r = hs[i].0.poll_ready();
                let (polls, st) = env::w(|w| (w.svcs[id].polls, w.svcs[id].state));
                check!(polls > before, "the readiness poll did not ask the inner service");
                match (r, st) {
                    (Poll::Pending, _) => fail!("a load-shedding service answered pending"),
                    (Poll::Ready(Ok(())), Rd::Ready) => hs[i].1 = true,
                    (Poll::Ready(Ok(())), Rd::Pending) => hs[i].1 = false,
                    (Poll::Ready(Err(e)), Rd::Failed(_)) => {
                        let c = classify(&e);
                        check!(c == Er::Env(EnvErr { ready: true, of: id }), "readiness error replaced by {c:?}");
                    }
                    (r, st) => fail!("readiness poll answered {r:?} with the inner service {st:?}"),
                }
            }
            Op::Call(i) => {
                let before = env::n_calls();
                let req = 100 + resps.len() as u32;
                let unasked = hs[i].0.st == H::Idle;
                let resp = hs[i].0.call_unready(req);
                let expect = std::mem::take(&mut hs[i].1);
                let made = env::n_calls() - before;
                check!(made == expect as usize, "the inner service was called {made} times; the last poll found it ready and unused: {expect}");
                let fid = expect.then(|| {
                    let (s, f) = env::w(|w| w.calls[before]);
                    check!(s == hs[i].2 && env::w(|w| w.futs[f].req) == req, "call passed on to the wrong instance or altered");
                    f
                });
                resps.push((resp, fid, unasked));
            }
            Op::Clone(i) => {
                let h = hs[i].0.dup();
                let id = env::w(|w| w.svcs.iter().rposition(|s| s.parent == Some(hs[i].2))).expect("clone of the inner service");
                hs.push((h, false, id));
            }
            Op::PollF(i) => {
                let done = resps[i].0.poll();
                let want = match resps[i].1 {
                    None => Some(Err(Er::Overloaded)),
                    Some(f) => env::expected(f).map(|r| r.map_err(Er::Env)),
                };
                let got = resps[i].0.out.as_ref().map(|o| match o {
                    Ok(r) => Ok(*r),
                    Err(e) => Err(classify(e)),
                });
                check!(got == want, "response {i} is {got:?} (finished: {done}), expected {want:?}");
                obs!("  -> {got:?}");
            }
            Op::Env(a) => env::act(a),
        }
    }
}

// ------------------------------------------------------------------------------------------ C09

fn c09(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (d, reqs, depth, dev) in t.pick(
        vec![(4u64, 1, 8, 2), (4, 2, 7, 1), (4, 3, 7, 0), (0, 2, 7, 1), (u64::MAX, 1, 7, 1), (100_000, 1, 7, 1)],
        vec![(4, 1, 9, 3), (4, 2, 9, 1), (4, 3, 9, 0), (0, 2, 9, 1), (u64::MAX, 2, 8, 1), (100_000, 2, 8, 1), (3_600_000, 2, 8, 1)],
    ) {
        let n = if d == u64::MAX { "max".into() } else { format!("{d}ms") };
        v.push(Scenario::new(format!("timeout={n} requests={reqs} depth={depth}"), dev, move || c09_ops(d, reqs, depth, false, false)));
    }
    // many requests and longer timeouts; every second request is sent a little later than the one before
    for (d, reqs, depth, dev) in t.pick(
        vec![(3u64, 8, 50, 2), (1_500, 6, 40, 2), (7_500_000_000, 3, 30, 2)],
        vec![(3, 24, 120, 2), (1_500, 12, 60, 2), (65_537, 6, 40, 3), (7_500_000_000, 6, 40, 2)],
    ) {
        v.push(Scenario::new(format!("timeout={d}ms, long run: requests={reqs} operations={depth}"), dev, move || c09_ops(d, reqs, depth, false, true)));
    }
    for (d, reqs, depth, dev) in t.pick(vec![(4u64, 1, 7, 2), (4, 2, 6, 1)], vec![(4, 1, 8, 3), (4, 2, 7, 2), (0, 2, 7, 1)]) {
        v.push(Scenario::new(format!("readiness errors, polls of ready handles: timeout={d}ms requests={reqs} depth={depth}"), dev, move || c09_ops(d, reqs, depth, true, false)));
    }
    v
}

/// `long`: requests follow each other, one millisecond apart and answered late; everything else is a deviation.
async fn c09_ops(d: u64, reqs: usize, depth: usize, errs: bool, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend], call: &[O::Pend, O::Ok, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    let cfg = if long {
        Cfg { dev: true, ..IN }
    } else if errs { Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], heal: true, revoke: true, ..IN } } else { IN };
    let dur = if d == u64::MAX { Duration::MAX } else { Duration::from_millis(d) };
    let svc = if choose(2, "construction") == 0 { Timeout::new(env::svc(cfg), dur) } else { TimeoutLayer::new(dur).layer(env::svc(cfg)) };
    let mut hs = vec![Handle::new(svc)];
    if reqs > 1 {
        let c = hs[0].dup();
        hs.push(c);
    }
    let mut now = 0u64;
    // response, time of call, inner future, deadline reported
    let mut rs: Vec<(Resp<tower::timeout::future::ResponseFuture<EnvFut>>, u64, usize)> = vec![];
    let steps: Vec<u64> = if d == 0 || d == u64::MAX { vec![1, 100_000_000_000] } else { vec![1, d - 1, d] };
    for _ in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll(usize),
            Call(usize),
            PollF(usize),
            DropF(usize),
            Adv(u64),
            Env(env::Act),
        }
        let mut ops = vec![];
        let mut spurious = vec![];
        if rs.len() < reqs {
            for (i, h) in hs.iter().enumerate() {
                match h.st {
                    H::Idle | H::Failed => ops.push(Op::Poll(i)),
                    H::Waiting if h.flag.is() => ops.push(Op::Poll(i)),
                    H::Ready => {
                        ops.push(Op::Call(i));
                        if errs {
                            spurious.push(Op::Poll(i));
                        }
                    }
                    _ if errs => spurious.push(Op::Poll(i)),
                    _ => {}
                }
            }
        }
        for (i, r) in rs.iter().enumerate() {
            if r.0.due() {
                ops.push(Op::PollF(i));
            } else if r.0.live() {
                spurious.push(Op::PollF(i));
            }
            if r.0.live() {
                spurious.push(Op::DropF(i));
            }
        }
        for &s in &steps {
            ops.push(Op::Adv(s));
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        let op = if long {
            let last_adv = rs.last().is_some_and(|r| r.1 == now);
            ops.sort_by_key(|o| match o {
                Op::PollF(_) => 0,
                Op::Adv(1) if last_adv => 1,
                Op::Call(_) => 2,
                Op::Poll(_) => 3,
                // once every request is out, time passes
                Op::Adv(x) => 4 + (*x != 1 && d < 100) as u32 + (*x != d - 1 && d >= 100) as u32,
                Op::Env(_) => 6,
                Op::DropF(_) => 7,
            });
            ops.extend(spurious);
            ops[deviate(ops.len(), "op")]
        } else {
            let sp = deviate(spurious.len() + 1, "spurious poll or drop");
            if sp > 0 {
                spurious[sp - 1]
            } else {
                ops[choose(ops.len(), "op")]
            }
        };
        obs!("t={now} {op:?}");
        match op {
            Op::Poll(i) => {
                let r = hs[i].poll_ready();
                let id = hs[i].svc.as_ref().unwrap().get_ref().id;
                let st = env::w(|w| w.svcs[id].state);
                let r = r.map(|r| r.map_err(|e| classify(&e)));
                let want = match st {
                    Rd::Ready => Poll::Ready(Ok(())),
                    Rd::Pending => Poll::Pending,
                    _ => Poll::Ready(Err(Er::Env(EnvErr { ready: true, of: id }))),
                };
                check!(r == want && st != Rd::Unknown, "readiness {r:?} with the inner service {st:?}");
            }
            Op::Call(i) => {
                let before = env::n_calls();
                let r = hs[i].call(40 + rs.len() as u32);
                check!(env::n_calls() == before + 1, "call not passed on at once");
                let fid = env::w(|w| w.calls[before].1);
                check!(env::w(|w| w.futs[fid].req) == 40 + rs.len() as u32, "request altered");
                rs.push((r, now, fid));
            }
            Op::PollF(i) => {
                let (r, at, fid) = &mut rs[i];
                r.poll();
                let got = r.out.as_ref().map(|o| match o {
                    Ok(x) => Ok(*x),
                    Err(e) => Err(classify(e)),
                });
                let late = d != u64::MAX && now - *at >= d;
                let want = match env::expected(*fid) {
                    Some(x) => Some(x.map_err(Er::Env)),
                    None if late => Some(Err(Er::Elapsed)),
                    None => None,
                };
                check!(got == want, "polled at {now}ms, called at {at}ms with a timeout of {d}ms: got {got:?}, expected {want:?}");
                if got.is_some() {
                    check!(env::w(|w| w.futs[*fid].dropped), "the inner request outlives the finished future");
                }
                obs!("  -> {got:?}");
            }
            Op::DropF(i) => {
                rs[i].0.drop_fut();
                check!(env::w(|w| w.futs[rs[i].2].dropped), "the inner request outlives the dropped future");
            }
            Op::Adv(s) => {
                advance(s).await;
                now += s;
            }
            Op::Env(a) => env::act(a),
        }
        settle().await;
        for (i, (r, at, fid)) in rs.iter().enumerate() {
            if r.live() && r.polled && !r.flag.is() {
                check!(env::expected(*fid).is_none(), "request {i} was not woken although its response is available");
                check!(d == u64::MAX || now - at < d, "request {i} was not woken at its deadline: now {now}ms, called at {at}ms, timeout {d}ms");
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C10

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Clone { req: u32, out: Option<u32> },
    Call { req: u32, fid: usize },
    Retry { req: u32, res: EnvRes, req2: u32, res2: EnvRes, gate: Option<usize> },
}
#[derive(Default)]
struct RLog {
    ev: Vec<Ev>,
    attempts_cap: u32,
    /// largest state a policy instance of the service has seen
    menu: bool,
    /// request rewrites branch fully
    full: bool,
    /// retries by default; anything else is a deviation
    long: bool,
}
thread_local! { static RL: RefCell<RLog> = RefCell::new(RLog::default()); }
fn rl<T>(f: impl FnOnce(&mut RLog) -> T) -> T {
    RL.with(|r| f(&mut r.borrow_mut()))
}

/// request numbers: the last two digits identify the request, the rest counts rewrites
#[derive(Debug)]
struct Pol {
    seen: Vec<u32>,
    attempts: u32,
}
impl Clone for Pol {
    fn clone(&self) -> Self {
        Pol { seen: self.seen.clone(), attempts: self.attempts }
    }
}
impl Policy<u32, Rsp, EnvErr> for Pol {
    type Future = Gate;
    fn retry(&mut self, req: &mut u32, res: &mut Result<Rsp, EnvErr>) -> Option<Gate> {
        let (r0, s0) = (*req, *res);
        // the state of this instance must consist of this request's events and what the service's policy knew
        let mine = self.seen.iter().filter(|x| *x % 100 == r0 % 100).count() as u32;
        check!(self.seen.last().map(|x| x % 100) == Some(r0 % 100), "policy state of another request used for {r0}: {:?}", self.seen);
        let so_far = rl(|l| l.ev.iter().filter(|e| ev_req(e) % 100 == r0 % 100 && !matches!(e, Ev::Call { .. })).count() as u32);
        check!(mine == so_far, "policy state for request {r0} saw {mine} of its {so_far} events");
        self.seen.push(r0);
        self.attempts += 1;
        let menu = rl(|l| l.menu);
        let rw = if rl(|l| l.full) { choose(2, "policy rewrites request") } else { deviate(2, "policy rewrites request") };
        if rw == 1 {
            *req += 100;
        }
        if menu && deviate(2, "policy rewrites result") == 1 {
            *res = match *res {
                Ok(_) => Err(EnvErr { ready: false, of: 777 }),
                Err(_) => Ok(Rsp { svc: 77, fut: 77, req: 77 }),
            };
        }
        let d = if self.attempts >= rl(|l| l.attempts_cap) {
            0
        } else if rl(|l| l.long) {
            [1, 2, 0][deviate(3, "policy: retry now, retry later, stop")]
        } else {
            choose(3, "policy: stop, retry now, retry later")
        };
        let g = match d {
            0 => None,
            k => Some(env::gate(k == 1, r0)),
        };
        let e = Ev::Retry { req: r0, res: s0, req2: *req, res2: *res, gate: g.as_ref().map(|g| g.id) };
        obs!("policy {e:?}");
        rl(|l| l.ev.push(e));
        g
    }
    fn clone_request(&mut self, req: &u32) -> Option<u32> {
        let out = match if rl(|l| l.menu) { deviate(3, "policy clone: same, refuse, altered") } else { 0 } {
            0 => Some(*req),
            1 => None,
            _ => Some(*req + 1000),
        };
        self.seen.push(*req);
        let e = Ev::Clone { req: *req, out };
        obs!("policy {e:?}");
        rl(|l| l.ev.push(e));
        out
    }
}
fn ev_req(e: &Ev) -> u32 {
    match e {
        Ev::Clone { req, .. } | Ev::Call { req, .. } | Ev::Retry { req, .. } => *req,
    }
}
#[derive(Debug, Clone)]
struct LogSvc(EnvSvc);
impl Service<u32> for LogSvc {
    type Response = Rsp;
    type Error = EnvErr;
    type Future = EnvFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, req: u32) -> EnvFut {
        let f = self.0.call(req);
        rl(|l| l.ev.push(Ev::Call { req, fid: f.id }));
        f
    }
}

fn c10(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (reqs, att, dev, ready) in t.pick(
        vec![(1, 2, 3, true), (1, 3, 2, true), (1, 3, 2, false), (1, 4, 1, false), (2, 2, 0, false)],
        vec![(1, 2, 4, true), (1, 3, 3, true), (1, 4, 2, false), (2, 2, 1, false), (2, 2, 0, true)],
    ) {
        v.push(Scenario::new(format!("requests={reqs} attempts<={att} free-readiness={ready}"), dev, move || c10_ops(reqs, att, ready, false)));
    }
    for (reqs, att, dev) in t.pick(vec![(1, 12, 2), (1, 40, 2), (4, 3, 3)], vec![(1, 20, 3), (1, 150, 2), (2, 12, 3), (6, 4, 3)]) {
        v.push(Scenario::new(format!("long run: requests={reqs} attempts<={att}"), dev, move || c10_ops(reqs, att, true, true)));
    }
    v
}

#[derive(Debug, PartialEq)]
enum Want {
    Pending(&'static str),
    Done(EnvRes),
    /// must have made progress when polled
    Progress(&'static str),
}
/// What the log says about request `k`: checks the grammar and returns what the future must do.
fn c10_oracle(k: u32, retry_svc_state: impl Fn() -> Option<(usize, Rd)>) -> Want {
    let ev: Vec<Ev> = rl(|l| l.ev.iter().copied().filter(|e| ev_req(e) % 100 == k).collect());
    let mut req = k;
    let mut i = 0;
    loop {
        let clone = match ev.get(i) {
            Some(Ev::Clone { req: r, out }) if *r == req => *out,
            Some(e) => fail!("request {k}: expected the policy to be asked for a clone of {req}, saw {e:?}"),
            None => break,
        };
        let fid = match ev.get(i + 1) {
            Some(Ev::Call { req: r, fid }) if *r == req => *fid,
            e => fail!("request {k}: expected an attempt with {req} right after asking for the clone, saw {e:?}"),
        };
        let res = env::expected(fid);
        i += 2;
        let c = match clone {
            None => {
                check!(ev.get(i).is_none(), "request {k}: policy consulted or request sent again without a clone: {:?}", ev.get(i));
                return match res {
                    None => Want::Pending("inner response"),
                    Some(r) => Want::Done(r),
                };
            }
            Some(c) => c,
        };
        match ev.get(i) {
            None => {
                return match res {
                    None => Want::Pending("inner response"),
                    Some(_) => Want::Progress("the policy must be consulted"),
                }
            }
            Some(Ev::Retry { req: r, res: s, req2, res2, gate }) => {
                check!(*r == c, "request {k}: policy was shown request {r} instead of its clone {c}");
                check!(Some(*s) == res, "request {k}: policy was shown result {s:?} instead of {res:?}");
                i += 1;
                match gate {
                    None => {
                        check!(ev.get(i).is_none(), "request {k}: activity after the policy said stop: {:?}", ev.get(i));
                        return Want::Done(*res2);
                    }
                    Some(g) => {
                        let open = env::w(|w| w.gates[*g].open);
                        if ev.get(i).is_none() {
                            if !open {
                                return Want::Pending("policy future");
                            }
                            return match retry_svc_state() {
                                Some((_, Rd::Pending)) => Want::Pending("readiness before the retry"),
                                Some((s, Rd::Failed(_))) => Want::Done(Err(EnvErr { ready: true, of: s })),
                                _ => Want::Progress("the retry must be made"),
                            };
                        }
                        check!(open && env::w(|w| w.gates[*g].done), "request {k}: retried before the policy future finished");
                        req = *req2;
                    }
                }
            }
            Some(e) => fail!("request {k}: attempt result not shown to the policy before {e:?}"),
        }
    }
    Want::Progress("first attempt")
}

async fn c10_ops(reqs: usize, att: u32, free_ready: bool, long: bool) {
    const A: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Pend, O::Ok], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    const B: Cfg = Cfg { call: &[O::Err, O::Pend], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    rl(|l| *l = RLog { ev: vec![], attempts_cap: att, menu: true, full: reqs == 1 && !long, long });
    const L: Cfg = Cfg { call: &[O::Err, O::Pend, O::Ok], dev: true, ..A };
    let cfg = if long {
        L
    } else if free_ready {
        A
    } else {
        B
    };
    let pol = Pol { seen: vec![], attempts: 0 };
    let inner = LogSvc(env::svc(cfg));
    let svc = if reqs == 1 && flip("construction") { RetryLayer::new(pol).layer(inner) } else { Retry::new(pol, inner) };
    let mut h = Handle::new(svc);
    // (response, service instance used for retries)
    let mut rs: Vec<(Resp<_>, std::ops::Range<usize>)> = vec![];
    for _ in 0..if long { 60 + 8 * att as usize * reqs } else { 60 } {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Poll,
            Call,
            PollF(usize),
            Env(env::Act),
        }
        let mut ops = vec![];
        if rs.len() < reqs {
            match h.st {
                H::Idle => ops.push(Op::Poll),
                H::Waiting if h.flag.is() => ops.push(Op::Poll),
                H::Ready => ops.push(Op::Call),
                _ => {}
            }
        }
        for (i, r) in rs.iter().enumerate() {
            let r: &(Resp<_>, _) = r;
            if r.0.due() {
                ops.push(Op::PollF(i));
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let live: Vec<usize> = (0..rs.len()).filter(|&i| rs[i].0.live()).collect();
        let d = deviate(live.len() + 1, "drop a response future");
        if d > 0 {
            obs!("drop response {}", live[d - 1]);
            let before = env::n_calls();
            rs[live[d - 1]].0.drop_fut();
            check!(env::n_calls() == before, "dropping made a call");
            continue;
        }
        let op = ops[if long { deviate(ops.len(), "op") } else { choose(ops.len(), "op") }];
        obs!("{op:?}");
        match op {
            Op::Poll => {
                let r = h.poll_ready();
                let st = env::w(|w| w.svcs[0].state);
                check!(
                    matches!((&r, st), (Poll::Ready(Ok(())), Rd::Ready) | (Poll::Pending, Rd::Pending) | (Poll::Ready(Err(_)), Rd::Failed(_))),
                    "readiness {r:?} with the inner service {st:?}"
                );
            }
            Op::Call => {
                let k = rs.len() as u32 + 1;
                let n = env::w(|w| w.svcs.len());
                let r = h.call(k);
                rs.push((r, n..env::w(|w| w.svcs.len())));
            }
            Op::PollF(i) => {
                rs[i].0.poll();
                if let Some(o) = rs[i].0.out.as_ref() {
                    obs!("  -> {o:?}");
                }
            }
            Op::Env(a) => env::act(a),
        }
        settle().await;
        for (i, (r, sids)) in rs.iter().enumerate() {
            // the instance kept for retries is the one that is polled
            let want = c10_oracle(i as u32 + 1, || env::w(|w| sids.clone().find(|s| w.svcs[*s].polls > 0).map(|s| (s, w.svcs[s].state))));
            let fresh_poll = matches!(op, Op::PollF(j) if j == i);
            match (&r.out, &want) {
                (Some(o), Want::Done(x)) => check!(o == x, "request {} ended with {o:?} instead of {x:?}", i + 1),
                (Some(o), w) => fail!("request {} ended with {o:?} although it should be: {w:?}", i + 1),
                (None, w) if fresh_poll => check!(matches!(w, Want::Pending(_)) || r.flag.is(), "request {} is pending but should be: {w:?}", i + 1),
                (None, w) if r.live() && r.polled && !r.flag.is() => {
                    check!(matches!(w, Want::Pending(_)), "request {} was not woken; it should be: {w:?}", i + 1)
                }
                _ => {}
            }
        }
    }
    for (i, (r, _)) in rs.iter().enumerate() {
        check!(!r.live(), "request {} hangs", i + 1);
    }
}
