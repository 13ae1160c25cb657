//! tower-test's mock service (C29).
use crate::core::{choose, deviate, Scenario};
use crate::drive::Resp;
use crate::sched::Flag;
use crate::{check, fail, obs, Prop, Tier};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower::layer::util::Identity;
use tower::Service;
use tower_test::assert_request_eq;
use tower_test::mock::{self, Mock, SendResponse};

pub const C29: Prop = Prop {
    id: "C29",
    scenarios: c29,
    assumptions: &["the allowance is checked exactly with one handle; several clones may each have seen the last permitted slot before one of them used it (both answers are accepted then)"],
};

fn c29(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, depth, dev) in t.pick(vec![(1usize, 7usize, 1), (1, 6, 2), (2, 7, 0), (3, 6, 0)], vec![(1, 9, 2), (2, 8, 1), (3, 7, 1)]) {
        v.push(Scenario::new(format!("ops mocks<={n} depth={depth} deviations={dev}"), dev, move || ops(n, depth)));
    }
    for k in t.pick(vec![3u64, 5, 40], vec![3, 4, 5, 17, 40, 300]) {
        v.push(Scenario::new(format!("bursts of up to {k} calls"), 0, move || bursts(k)));
    }
    v.push(Scenario::new("controller task", 2, move || controller(t.pick(3, 4))));
    v
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct MErr(u32);
impl std::fmt::Display for MErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MErr {}
#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Val(u32),
    Err(u32),
    Closed,
    Other,
}
fn end(e: &(dyn std::error::Error + Send + Sync + 'static)) -> End {
    if let Some(m) = e.downcast_ref::<MErr>() {
        End::Err(m.0)
    } else if e.is::<mock::error::Closed>() {
        End::Closed
    } else {
        End::Other
    }
}

enum S {
    Raw(Mock<u32, u32>, Arc<Flag>, Waker),
    Sp(mock::Spawn<Mock<u32, u32>>),
}
impl S {
    fn raw(m: Mock<u32, u32>) -> S {
        let (f, w) = Flag::new();
        S::Raw(m, f, w)
    }
    fn poll(&mut self, other_task: bool) -> Poll<Result<(), End>> {
        match self {
            S::Raw(m, f, w) => {
                if other_task {
                    let (a, b) = Flag::new();
                    *f = a;
                    *w = b;
                }
                f.clear();
                let w = w.clone();
                m.poll_ready(&mut Context::from_waker(&w)).map_err(|e| end(&*e))
            }
            S::Sp(s) => s.poll_ready::<u32>().map_err(|e| end(&*e)),
        }
    }
    fn woken(&self) -> bool {
        match self {
            S::Raw(_, f, _) => f.is(),
            S::Sp(s) => s.is_woken(),
        }
    }
    fn call(&mut self, r: u32) -> mock::future::ResponseFuture<u32> {
        match self {
            S::Raw(m, _, _) => m.call(r),
            S::Sp(s) => s.call(r),
        }
    }
    fn dup(&self) -> S {
        match self {
            S::Raw(m, _, _) => S::raw(m.clone()),
            S::Sp(s) => S::Sp(s.clone()),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Res {
    No,
    Maybe,
    Yes,
}
struct M {
    s: Option<S>,
    /// holds a reserved slot
    res: Res,
    /// last poll answered ready and has not been used
    ready: bool,
    waiting: bool,
}
struct Rq {
    id: u32,
    /// what the caller must get
    want: Option<End>,
    resp: Resp<mock::future::ResponseFuture<u32>>,
}

async fn ops(n: usize, depth: usize) {
    let (first, handle) = match choose(5, "construction") {
        0 => {
            let (m, h) = mock::pair();
            (S::raw(m), h)
        }
        1 => {
            let (m, h) = mock::spawn();
            (S::Sp(m), h)
        }
        2 => {
            let (m, h) = mock::spawn_with(|m| m);
            (S::Sp(m), h)
        }
        3 => {
            let (m, h) = mock::spawn_layer(Identity::new());
            (S::Sp(m), h)
        }
        _ => {
            let (m, h) = mock::spawn();
            (S::raw(m.into_inner()), h)
        }
    };
    let mut handle = Some(handle);
    let mut ms = vec![M { s: Some(first), res: Res::No, ready: false, waiting: false }];
    let mut rem: Option<u64> = None;
    let mut err: Option<u32> = None;
    let mut nerr = 0u32;
    let mut queue: VecDeque<u32> = VecDeque::new();
    let mut taken: Vec<(u32, SendResponse<u32>)> = vec![];
    let mut rq: Vec<Rq> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll(usize, bool),
        Call(usize),
        Clone(usize),
        Drop(usize),
        Allow(u64),
        Fail,
        Take,
        Respond(usize),
        RespondErr(usize),
        Discard(usize),
        DropHandle,
        PollF(usize),
        DropF(usize),
        /// call without having been told ready (ends the execution)
        Misuse(usize),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut rare = vec![];
        for (i, m) in ms.iter().enumerate() {
            let Some(s) = &m.s else { continue };
            if m.ready {
                ops.push(Op::Call(i));
                rare.push(Op::Poll(i, false));
            } else if !m.waiting || s.woken() {
                ops.push(Op::Poll(i, false));
            } else {
                rare.push(Op::Poll(i, false));
                rare.push(Op::Poll(i, true));
            }
            if m.res == Res::No && handle.is_some() {
                rare.push(Op::Misuse(i));
            }
            if ms.len() < n {
                ops.push(Op::Clone(i));
            }
            if ms.len() > 1 || m.ready {
                ops.push(Op::Drop(i));
            } else {
                rare.push(Op::Drop(i));
            }
        }
        if handle.is_some() {
            for k in 0..3 {
                ops.push(Op::Allow(k));
            }
            ops.push(Op::Fail);
            if !queue.is_empty() || ms.iter().all(|m| m.s.is_none()) {
                ops.push(Op::Take);
            } else {
                rare.push(Op::Take);
            }
            ops.push(Op::DropHandle);
        }
        for k in 0..taken.len() {
            ops.extend([Op::Respond(k), Op::RespondErr(k), Op::Discard(k)]);
        }
        for (k, r) in rq.iter().enumerate() {
            if r.resp.due() {
                ops.push(Op::PollF(k));
            }
            if r.resp.live() {
                rare.push(Op::DropF(k));
            }
        }
        if ops.is_empty() {
            break;
        }
        let d = deviate(rare.len() + 1, "rare op");
        let op = if d > 0 { rare[d - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("{op:?}");
        match op {
            Op::Poll(i, other) => {
                let reserved = ms.iter().enumerate().filter(|(j, m)| *j != i && m.s.is_some() && m.res != Res::No).count() as u64;
                let closed = handle.is_none();
                let m = &mut ms[i];
                let r = m.s.as_mut().unwrap().poll(other);
                obs!("{r:?}");
                m.waiting = false;
                m.ready = false;
                if closed {
                    check!(r == Poll::Ready(Err(End::Closed)), "readiness of a mock without controller answered {r:?} instead of the closed error");
                    continue;
                }
                if let Some(e) = err.take() {
                    check!(r == Poll::Ready(Err(End::Err(e))), "the injected error {e} was not reported: readiness answered {r:?}");
                    if m.res == Res::Yes {
                        m.res = Res::Maybe;
                    }
                    continue;
                }
                let must_ready = m.res == Res::Yes || rem.is_none_or(|r| r > reserved);
                let must_pend = m.res == Res::No && rem == Some(0);
                match r {
                    Poll::Ready(Ok(())) => {
                        check!(!must_pend, "a mock was ready although its controller allows no call");
                        m.res = Res::Yes;
                        m.ready = true;
                    }
                    Poll::Pending => {
                        check!(!must_ready, "a mock was not ready although its controller allows {rem:?} calls and {reserved} are reserved by others");
                        m.res = Res::No;
                        m.waiting = true;
                    }
                    Poll::Ready(Err(e)) => fail!("readiness failed with {e:?}, but no error was injected"),
                }
            }
            Op::Call(i) => {
                let id = 100 + rq.len() as u32;
                let f = ms[i].s.as_mut().unwrap().call(id);
                ms[i].ready = false;
                ms[i].res = Res::No;
                if handle.is_some() {
                    rem = rem.map(|r| r.saturating_sub(1));
                    queue.push_back(id);
                }
                let want = if handle.is_some() { None } else { Some(End::Closed) };
                rq.push(Rq { id, want, resp: Resp::new(f) });
            }
            Op::Misuse(i) => {
                let m = ms[i].s.as_mut().unwrap();
                let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::mem::forget(m.call(99)))).is_err();
                check!(refused, "a call on a handle that was not told it is ready was accepted");
                // (the mock's state is poisoned now)
                std::mem::forget((ms, handle, taken, rq));
                return;
            }
            Op::Clone(i) => {
                let s = ms[i].s.as_ref().unwrap().dup();
                ms.push(M { s: Some(s), res: Res::No, ready: false, waiting: false });
            }
            Op::Drop(i) => {
                ms[i].s = None;
                ms[i].res = Res::No;
                ms[i].ready = false;
                ms[i].waiting = false;
            }
            Op::Allow(k) => {
                handle.as_mut().unwrap().allow(k);
                rem = Some(k);
                if k > 0 {
                    awake(&ms, "capacity was granted");
                }
            }
            Op::Fail => {
                nerr += 1;
                handle.as_mut().unwrap().send_error(MErr(nerr));
                err = Some(nerr);
                awake(&ms, "an error was injected");
            }
            Op::Take => {
                let h = handle.as_mut().unwrap();
                let got = if choose(2, "how") == 0 {
                    h.poll_request()
                } else {
                    let mut f = Box::pin(h.next_request());
                    let (_f, w) = Flag::new();
                    f.as_mut().poll(&mut Context::from_waker(&w))
                };
                match (got, queue.pop_front()) {
                    (Poll::Ready(Some((id, s))), Some(want)) => {
                        check!(id == want, "the controller received request {id}, next in order is {want}");
                        taken.push((id, s));
                    }
                    (Poll::Ready(None), None) => check!(ms.iter().all(|m| m.s.is_none()), "the controller saw the end of the requests although a mock is alive"),
                    (Poll::Pending, None) => check!(ms.iter().any(|m| m.s.is_some()), "no mock is left, but the controller does not see the end of the requests"),
                    (g, w) => fail!("the controller received {:?}, next in order is {w:?}", g.map(|x| x.map(|x| x.0))),
                }
            }
            Op::Respond(k) | Op::RespondErr(k) | Op::Discard(k) => {
                let (id, s) = taken.remove(k);
                let want = match op {
                    Op::Respond(_) => {
                        s.send_response(id + 1000);
                        End::Val(id + 1000)
                    }
                    Op::RespondErr(_) => {
                        s.send_error(MErr(id));
                        End::Err(id)
                    }
                    _ => {
                        drop(s);
                        End::Closed
                    }
                };
                settle_req(&mut rq, id, want);
            }
            Op::DropHandle => {
                handle = None;
                awake(&ms, "the controller went away");
                for id in queue.drain(..) {
                    settle_req(&mut rq, id, End::Closed);
                }
            }
            Op::PollF(k) => {
                let r = &mut rq[k];
                let done = r.resp.poll();
                let got = r.resp.out.as_ref().map(|o| match o {
                    Ok(v) => End::Val(*v),
                    Err(e) => end(&**e),
                });
                obs!("{got:?}");
                check!(done == got.is_some() && got == r.want, "the caller of request {} got {got:?}, the controller's answer is {:?}", r.id, r.want);
            }
            Op::DropF(k) => rq[k].resp.drop_fut(),
        }
    }
    // finally: everything answered must reach its caller
    for r in &mut rq {
        if r.resp.live() && r.want.is_some() {
            check!(r.resp.due(), "request {} is answered, but its caller was not woken", r.id);
        }
    }
    drop(handle);
    awake(&ms, "the controller went away");
    for (id, s) in taken.drain(..) {
        drop(s);
        settle_req(&mut rq, id, End::Closed);
    }
    for id in queue.drain(..) {
        settle_req(&mut rq, id, End::Closed);
    }
    for r in &mut rq {
        if r.resp.live() {
            check!(r.resp.poll(), "request {} never ends although its controller is gone", r.id);
        }
    }
}
/// Larger allowances: exactly that many calls are let through, and the answers, given in any of
/// several orders, reach their callers.
async fn bursts(k: u64) {
    let (m, mut h) = mock::pair::<u32, u32>();
    let mut m = S::raw(m);
    let mut waiters: Vec<S> = vec![];
    let mut next = 0u32;
    let mut rs: Vec<(u32, Resp<mock::future::ResponseFuture<u32>>)> = vec![];
    let mut taken: Vec<(u32, SendResponse<u32>)> = vec![];
    let plan = [k, k - 1, 1, 2 * k];
    for _ in 0..2 {
        let n = plan[choose(plan.len(), "allowance")];
        h.allow(n);
        for w in &waiters {
            check!(w.woken(), "capacity was granted, but a waiting clone was not woken");
        }
        waiters.clear();
        for i in 0..n {
            check!(m.poll(false) == Poll::Ready(Ok(())), "only {i} calls were possible although {n} were allowed");
            rs.push((next, Resp::new(m.call(next))));
            next += 1;
        }
        check!(m.poll(false).is_pending(), "more than the {n} calls allowed are possible");
        for _ in 0..k {
            let mut c = m.dup();
            check!(c.poll(false).is_pending(), "a clone may call although the allowance of {n} is used up");
            waiters.push(c);
        }
    }
    for (id, r) in &mut rs {
        check!(!r.poll(), "request {id} was answered before the controller saw it");
    }
    for want in 0..next {
        match h.poll_request() {
            Poll::Ready(Some((id, s))) if id == want => taken.push((id, s)),
            o => fail!("the controller received {:?} in place of request {want}", o.map(|x| x.map(|x| x.0))),
        }
    }
    match choose(3, "order of answers") {
        0 => {}
        1 => taken.reverse(),
        _ => taken.rotate_left(next as usize / 2),
    }
    for (i, (id, s)) in taken.into_iter().enumerate() {
        match i % 3 {
            0 => s.send_response(id + 1000),
            1 => s.send_error(MErr(id)),
            _ => drop(s),
        }
        let (_, r) = &mut rs[id as usize];
        check!(r.due() && r.poll(), "request {id} was answered, but its caller is not told");
        let got = match r.out.as_ref().unwrap() {
            Ok(v) => End::Val(*v),
            Err(e) => end(&**e),
        };
        let want = [End::Val(id + 1000), End::Err(id), End::Closed][i % 3];
        check!(got == want, "the caller of request {id} got {got:?}, the controller's answer is {want:?}");
    }
    h.send_error(MErr(7));
    for w in &waiters {
        check!(w.woken(), "an error was injected, but a waiting clone was not woken");
    }
}
fn awake(ms: &[M], why: &str) {
    for (i, m) in ms.iter().enumerate() {
        if let (Some(s), true) = (&m.s, m.waiting) {
            check!(s.woken(), "{why}, but waiting mock {i} was not woken");
        }
    }
}
fn settle_req(rq: &mut [Rq], id: u32, want: End) {
    let r = rq.iter_mut().find(|r| r.id == id).unwrap();
    r.want = Some(want);
    if r.resp.live() {
        check!(r.resp.due(), "request {id} was answered, but its waiting caller was not woken");
    }
}

/// A controller written as a task which waits for requests, woken only when one arrives.
async fn controller(n: usize) {
    let (m, mut h) = mock::pair::<u32, u32>();
    let mut m = Some(S::raw(m));
    let (flag, waker) = Flag::new();
    let mut task: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
        for k in 0..n as u32 {
            assert_request_eq!(h, 100 + k).send_response(k);
        }
        match h.next_request().await {
            None => {}
            Some((id, _)) => fail!("unexpected request {id}"),
        }
    });
    let mut rs: Vec<Resp<mock::future::ResponseFuture<u32>>> = vec![];
    let mut done = false;
    let mut polled = false;
    let mut sent = 0;
    loop {
        let run = !done && (!polled || flag.is());
        let more = sent < n;
        let mut o = vec![];
        if run {
            o.push(0);
        }
        if more {
            o.push(1);
        } else if m.is_some() {
            o.push(2);
        }
        if o.is_empty() {
            break;
        }
        match o[choose(o.len(), "step")] {
            0 => {
                flag.clear();
                polled = true;
                done = task.as_mut().poll(&mut Context::from_waker(&waker)).is_ready();
            }
            1 => {
                let s = m.as_mut().unwrap();
                check!(s.poll(false) == Poll::Ready(Ok(())), "an unlimited mock is not ready");
                let mut r = Resp::new(s.call(100 + sent as u32));
                if choose(2, "poll early") == 1 {
                    check!(!r.poll(), "answered before the controller saw it");
                }
                rs.push(r);
                sent += 1;
            }
            _ => m = None,
        }
    }
    check!(done, "the controller waits for ever although all requests were sent and the mock is gone");
    for (k, r) in rs.iter_mut().enumerate() {
        check!(r.due() && r.poll(), "request {k} got no answer");
        check!(matches!(r.out, Some(Ok(v)) if v == k as u32), "request {k} got {:?}", r.out);
    }
}
