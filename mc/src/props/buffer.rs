//! Buffer: dispatch order (C03), failure propagation (C04), backpressure (C05).
use crate::core::{choose, Scenario};
use crate::drive::{classify, Er, Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, Rd, Rsp, O, R};
use crate::sched::{settle, Flag, Sched};
use crate::{check, fail, obs, Prop, Tier};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower::buffer::{future::ResponseFuture, Buffer};
type Wk = Pin<Box<dyn Future<Output = ()>>>;
use tower::{BoxError, Layer, Service};

const ASSUME: &[&str] = &[
    "tokio's mpsc/oneshot channels are the real ones and trusted not to be wrong by themselves",
    "tasks are interleaved at poll granularity; thread interleavings are explored separately (mct, property C04)",
];

pub const C03: Prop = Prop { id: "C03", scenarios: c03, assumptions: ASSUME };
pub const C04: Prop = Prop { id: "C04", scenarios: c04, assumptions: ASSUME };
pub const C05: Prop = Prop { id: "C05", scenarios: c05, assumptions: ASSUME };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Queued,
    Held,
    Dispatched(usize),
    Skipped,
    Failed,
}
struct Rq {
    resp: Resp<ResponseFuture<EnvFut>>,
    st: St,
    /// response future dropped by the caller
    gone: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Live,
    SvcFailed(EnvErr),
    Dropped,
}
type B = Buffer<u32, EnvFut>;
struct M {
    bound: usize,
    hs: Vec<Handle<B>>,
    /// waiting handles, longest waiting first
    waitq: Vec<usize>,
    worker: Option<Wk>,
    wflag: Arc<Flag>,
    wwaker: Waker,
    worker_done: bool,
    end: End,
    rq: Vec<Rq>,
    dispatched: usize,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Poll(usize),
    Call(usize),
    DropH(usize),
    Clone(usize),
    PollW,
    DropW,
    PollF(usize),
    DropF(usize),
    Env(env::Act),
}

impl M {
    fn new(bound: usize, cfg: Cfg, n: usize) -> M {
        let (b, w) = Buffer::pair(env::svc(cfg), bound);
        let (wflag, wwaker) = Flag::new();
        let mut hs = vec![Handle::new(b)];
        for _ in 1..n {
            let h = hs[0].dup();
            hs.push(h);
        }
        M {
            bound,
            hs,
            waitq: vec![],
            worker: Some(Box::pin(w)),
            wflag,
            wwaker,
            worker_done: false,
            end: End::Live,
            rq: vec![],
            dispatched: 0,
        }
    }
    fn expected_err(&self) -> Er {
        match self.end {
            End::SvcFailed(e) => Er::BufSvc(e),
            _ => Er::BufClosed,
        }
    }
    /// slots neither holding a request, nor reserved, nor granted to a woken waiter
    fn free(&self) -> usize {
        let q = self.rq.iter().filter(|r| r.st == St::Queued).count();
        let held = self.hs.iter().filter(|h| h.st == H::Ready || (h.st == H::Waiting && h.flag.is())).count();
        check!(q + held <= self.bound, "{q} requests waiting for the worker and {held} reserved slots exceed the bound {}", self.bound);
        self.bound - q - held
    }
    fn ops(&self, menu: Menu) -> Vec<Op> {
        let mut v = vec![];
        for (i, h) in self.hs.iter().enumerate() {
            if !h.alive() {
                continue;
            }
            if h.st == H::Idle || (h.st == H::Waiting && h.flag.is()) || (h.st == H::Failed && menu.drop_w) {
                v.push(Op::Poll(i));
            }
            if h.st == H::Ready {
                v.push(Op::Call(i));
            }
            if menu.drop_h && h.st != H::Idle {
                v.push(Op::DropH(i));
            }
        }
        if menu.clone > self.hs.len() && self.hs[0].alive() {
            v.push(Op::Clone(0));
        }
        if self.worker.is_some() && (self.wflag.is() || self.wflag.count.load(std::sync::atomic::Ordering::SeqCst) == 0) {
            v.push(Op::PollW);
        }
        if self.worker.is_some() && menu.drop_w {
            v.push(Op::DropW);
        }
        for (i, r) in self.rq.iter().enumerate() {
            if r.resp.due() {
                v.push(Op::PollF(i));
            }
            if menu.cancel && r.resp.live() {
                v.push(Op::DropF(i));
            }
        }
        v.extend(env::acts().into_iter().map(Op::Env));
        v
    }
    async fn exec(&mut self, op: Op) {
        obs!("{op:?}");
        match op {
            Op::Poll(i) => self.poll_handle(i),
            Op::Call(i) => {
                let req = self.rq.len() as u32;
                let resp = self.hs[i].call(req);
                self.rq.push(Rq { resp, st: if self.end == End::Live { St::Queued } else { St::Failed }, gone: false });
            }
            Op::DropH(i) => {
                self.waitq.retain(|x| *x != i);
                self.hs[i].drop_svc();
            }
            Op::Clone(i) => {
                let h = self.hs[i].dup();
                self.hs.push(h);
            }
            Op::PollW => self.poll_worker(),
            Op::DropW => {
                self.worker = None;
                if self.end == End::Live {
                    self.end = End::Dropped;
                    self.fail_rest();
                }
            }
            Op::PollF(i) => self.poll_resp(i),
            Op::DropF(i) => {
                self.rq[i].resp.drop_fut();
                self.rq[i].gone = true;
            }
            Op::Env(a) => env::act(a),
        }
        settle().await;
        self.invariant();
    }
    fn fail_rest(&mut self) {
        for r in &mut self.rq {
            if matches!(r.st, St::Queued | St::Held) {
                r.st = St::Failed;
            }
        }
    }
    fn poll_handle(&mut self, i: usize) {
        let was = self.hs[i].st;
        let granted = was == H::Waiting && self.hs[i].flag.is();
        let free = if self.end == End::Live { self.free() } else { 0 };
        let r = self.hs[i].poll_ready();
        match &r {
            Poll::Ready(Ok(())) => {
                self.waitq.retain(|x| *x != i);
                match self.end {
                    End::Live => check!(granted || was == H::Ready || free > 0, "a clone was told it is ready although all {} slots are in use", self.bound),
                    // a slot reserved before the end may still be reported; the call itself must fail
                    _ => check!(granted || was == H::Ready, "a readiness poll after the end of the worker succeeded (end: {:?})", self.end),
                }
                obs!("  ready");
            }
            Poll::Ready(Err(e)) => {
                self.waitq.retain(|x| *x != i);
                let c = classify(e);
                check!(self.end != End::Live, "readiness poll failed with {c:?} although the worker is alive and well");
                check!(c == self.expected_err(), "readiness poll failed with {c:?} instead of {:?}", self.expected_err());
                obs!("  err {c:?}");
            }
            Poll::Pending => {
                check!(self.end == End::Live, "readiness poll is pending after the worker ended ({:?})", self.end);
                check!(free == 0 && !granted, "a clone has to wait although {free} slots are free (granted: {granted})");
                if !self.waitq.contains(&i) {
                    self.waitq.push(i);
                }
                obs!("  pending");
            }
        }
    }
    fn poll_worker(&mut self) {
        self.wflag.clear();
        if self.wflag.count.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            self.wflag.count.store(1, std::sync::atomic::Ordering::SeqCst);
        }
        let before = env::n_calls();
        let was_failed = self.end != End::Live;
        let w = self.wwaker.clone();
        let r = self.worker.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
        let calls: Vec<(usize, usize)> = env::w(|w| w.calls[before..].to_vec());
        check!(!was_failed || calls.is_empty(), "the worker dispatched a request after the service had failed");
        // walk over the requests the worker must have seen, in order of sending
        let mut k = 0;
        let inner = env::w(|w| w.svcs[0].state);
        let mut order: Vec<usize> = (0..self.rq.len()).filter(|&i| self.rq[i].st == St::Held).collect();
        order.extend((0..self.rq.len()).filter(|&i| self.rq[i].st == St::Queued));
        let mut stop = false;
        for i in order {
            if stop {
                break;
            }
            if self.rq[i].gone {
                self.rq[i].st = St::Skipped;
                continue;
            }
            if k < calls.len() {
                let fid = calls[k].1;
                let req = env::w(|w| w.futs[fid].req);
                check!(req as usize == i, "request {req} was dispatched when it was the turn of request {i}");
                self.rq[i].st = St::Dispatched(fid);
                self.dispatched += 1;
                k += 1;
                continue;
            }
            match inner {
                Rd::Pending => {
                    self.rq[i].st = St::Held;
                    stop = true;
                }
                Rd::Failed(s) => {
                    self.end = End::SvcFailed(EnvErr { ready: true, of: s as usize });
                    self.fail_rest();
                    stop = true;
                }
                // it may take several polls, if it asks for the next one
                _ if self.wflag.is() && r.is_pending() => stop = true,
                _ => fail!("request {i} was sent but the worker, with the inner service {inner:?}, neither dispatched nor kept it"),
            }
        }
        check!(k == calls.len(), "the worker dispatched {} requests but only {k} live requests were waiting: {:?}", calls.len(), env::w(|w| calls.iter().map(|c| w.futs[c.1].req).collect::<Vec<_>>()));
        if r.is_ready() {
            obs!("  worker finished");
            self.worker = None;
            self.worker_done = true;
            let handles = self.hs.iter().any(|h| h.alive());
            check!(self.end != End::Live || !handles, "the worker ended although clones of the buffer exist and the service did not fail");
            check!(
                !self.rq.iter().any(|r| matches!(r.st, St::Queued | St::Held)),
                "the worker ended before all requests were dispatched"
            );
        }
    }
    fn poll_resp(&mut self, i: usize) {
        if !self.rq[i].resp.poll() {
            let ok = match self.rq[i].st {
                St::Queued | St::Held => true,
                St::Dispatched(f) => env::expected(f).is_none(),
                // before the worker had a chance to tell, it may still be pending
                St::Failed => self.worker.is_some() && self.wflag.is(),
                St::Skipped => false,
            };
            check!(ok, "the response of request {i} ({:?}) is pending although its outcome is settled", self.rq[i].st);
            return;
        }
        let got: Result<Rsp, Er> = match self.rq[i].resp.out.as_ref().unwrap() {
            Ok(r) => Ok(*r),
            Err(e) => Err(classify(e)),
        };
        obs!("  response {got:?}");
        let want: Result<Rsp, Er> = match self.rq[i].st {
            St::Dispatched(f) => match env::expected(f) {
                Some(r) => r.map_err(Er::Env),
                None => fail!("the response {got:?} of request {i} appeared before the inner service answered"),
            },
            St::Failed => Err(self.expected_err()),
            s => fail!("request {i} got {got:?} while {s:?}"),
        };
        check!(got == want, "request {i} got {got:?} instead of {want:?}");
    }
    fn invariant(&self) {
        if self.end != End::Live {
            for &i in &self.waitq {
                check!(self.hs[i].flag.is(), "a clone waiting for a slot is not woken after the worker ended ({:?})", self.end);
            }
            return;
        }
        let free = self.free();
        let unwoken: Vec<bool> = self.waitq.iter().map(|&i| self.hs[i].flag.is()).collect();
        if unwoken.iter().any(|w| !w) {
            check!(free == 0, "a clone waits without a wakeup although {free} slots are free");
        }
        // longest waiting first
        let first_unwoken = unwoken.iter().position(|w| !w).unwrap_or(unwoken.len());
        check!(unwoken[first_unwoken..].iter().all(|w| !w), "a clone which waited shorter was woken first: {unwoken:?}");
    }
    /// run worker and responses until nothing is woken; then nobody may be left hanging
    async fn finish(&mut self) {
        for _ in 0..60 + 4 * self.rq.len() {
            settle().await;
            let op = if self.worker.is_some() && self.wflag.is() {
                Op::PollW
            } else if let Some(i) = self.rq.iter().position(|r| r.resp.due()) {
                Op::PollF(i)
            } else {
                break;
            };
            self.exec(op).await;
        }
        for i in 0..self.rq.len() {
            if !self.rq[i].resp.live() {
                continue;
            }
            let w_polled = self.wflag.count.load(std::sync::atomic::Ordering::SeqCst) > 0;
            let ok = match self.rq[i].st {
                St::Queued => self.worker.is_some() && (!w_polled || self.rq.iter().any(|r| r.st == St::Held)),
                St::Held => env::w(|w| w.svcs[0].state == Rd::Pending) && self.worker.is_some(),
                St::Dispatched(f) => env::expected(f).is_none(),
                St::Failed | St::Skipped => false,
            };
            check!(ok, "request {i} ({:?}) hangs: nothing is going to wake its caller (end {:?}, worker alive {})", self.rq[i].st, self.end, self.worker.is_some());
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Menu {
    clone: usize,
    drop_h: bool,
    drop_w: bool,
    cancel: bool,
}

async fn ops(bound: usize, n: usize, depth: usize, cfg: Cfg, menu: Menu) {
    let mut m = M::new(bound, cfg, n);
    for _ in 0..depth {
        let v = m.ops(menu);
        if v.is_empty() {
            break;
        }
        let op = v[choose(v.len(), "op")];
        m.exec(op).await;
    }
    m.finish().await;
}

/// From a state in which all slots of a larger bound are taken: by `sent` requests, of which some
/// were cancelled, and by clones holding a reservation, with two more clones waiting.
async fn burst(bound: usize, depth: usize, cfg: Cfg, menu: Menu) {
    let mut m = M::new(bound, cfg, bound + 2);
    let sent = [bound, bound - 1, bound / 2, 0][choose(if menu.drop_h { 4 } else { 1 }, "requests sent")];
    for i in 0..bound + 2 {
        m.exec(Op::Poll(i)).await;
        if i < sent {
            m.exec(Op::Call(i)).await;
        }
    }
    let cancelled = |i: usize, how: usize| match how {
        0 => false,
        1 => i + 1 < sent,
        2 => i % 2 == 0,
        _ => i > 0,
    };
    let how = choose(if menu.cancel { 4 } else { 1 }, "cancelled requests");
    for i in (0..sent).filter(|i| cancelled(*i, how)) {
        m.exec(Op::DropF(i)).await;
    }
    for _ in 0..depth {
        let v = m.ops(menu);
        if v.is_empty() {
            break;
        }
        let op = v[choose(v.len(), "op")];
        m.exec(op).await;
    }
    m.finish().await;
}

const SLOW: Cfg = Cfg { ready: &[R::Ready, R::Pend], call: &[O::Pend], dev: true, ..env::ALWAYS };
const FAILING: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Pend], fin: &[O::Ok], ..env::ALWAYS };
const MIXED: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], call: &[O::Pend, O::Ok, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };

fn c03(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let menu = Menu { clone: 0, drop_h: false, drop_w: false, cancel: true };
    for (bound, n, depth) in t.pick(vec![(1, 2, 8), (2, 2, 8), (3, 3, 7)], vec![(1, 2, 10), (2, 2, 10), (2, 3, 9), (3, 3, 9)]) {
        v.push(Scenario::new(format!("ops bound={bound} clones={n} depth={depth}"), 0, move || ops(bound, n, depth, MIXED, menu)));
    }
    for bound in t.pick(vec![5usize, 12], vec![4, 5, 8, 12, 16]) {
        let depth = t.pick(3, 4) - (bound > 8) as usize;
        v.push(Scenario::new(format!("burst bound={bound} depth={depth}"), 0, move || burst(bound, depth, Cfg { call: &[O::Pend], ..MIXED }, menu)));
    }
    for (full, bound, n, reqs, dev) in t.pick(
        vec![(true, 1, 2, 1, 1), (true, 2, 2, 1, 2), (true, 1, 2, 2, 0), (false, 1, 2, 2, 5), (false, 2, 3, 1, 5), (false, 2, 2, 2, 5), (false, 1, 3, 1, 5)],
        vec![(true, 1, 2, 2, 2), (true, 1, 3, 1, 1), (true, 2, 3, 1, 1), (false, 1, 2, 2, 7), (false, 2, 3, 1, 7), (false, 2, 2, 3, 6), (false, 1, 3, 2, 6), (false, 3, 4, 1, 6)],
    ) {
        v.push(Scenario::new(
            format!("tasks bound={bound} clients={n} requests={reqs} {}", if full { "all-orders" } else { "bounded-orders" }),
            dev,
            move || tasks(bound, n, reqs, full, SLOW, false),
        ));
    }
    v
}

fn c05(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let menu = Menu { clone: 4, drop_h: true, drop_w: false, cancel: true };
    for (bound, n, depth, dev) in t.pick(
        vec![(1, 2, 9, 0), (2, 3, 8, 0), (3, 4, 7, 0), (1, 3, 8, 1)],
        vec![(1, 2, 11, 1), (2, 3, 9, 1), (3, 4, 9, 0), (1, 3, 10, 0), (1, 4, 9, 1)],
    ) {
        v.push(Scenario::new(format!("ops bound={bound} clones={n} depth={depth}"), dev, move || {
            ops(bound, n, depth, Cfg { call: &[O::Ok], ..SLOW }, Menu { clone: (n + 1).min(4), ..menu })
        }));
    }
    for bound in t.pick(vec![5usize, 12, 20], vec![4, 5, 8, 12, 20, 40]) {
        let depth = t.pick(3, 4) - (bound > 8) as usize;
        v.push(Scenario::new(format!("burst bound={bound} depth={depth}"), 0, move || burst(bound, depth, Cfg { call: &[O::Ok], ..SLOW }, Menu { clone: 0, ..menu })));
    }
    let sizes: &'static [usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025];
    v.push(Scenario::new("filling and draining bounds up to 1025", 0, move || c05_sizes(sizes)));
    v
}

/// A buffer is filled to its bound (by reservations, partly used for requests), some reservations are
/// given up, the worker drains it, and it is filled again.
async fn c05_sizes(sizes: &'static [usize]) {
    const IN: Cfg = Cfg { ready: &[R::Ready], call: &[O::Ok], quiet: true, ..env::ALWAYS };
    let bound = sizes[choose(sizes.len(), "bound")];
    let mut worker = None;
    let buf: B = match choose(4, "construction") {
        0 => {
            let (b, w) = Buffer::pair(env::svc(IN), bound);
            worker = Some(w);
            b
        }
        1 => Buffer::new(env::svc(IN), bound),
        2 => tower::buffer::BufferLayer::new(bound).layer(env::svc(IN)),
        _ => tower::ServiceBuilder::new().buffer(bound).service(env::svc(IN)),
    };
    const EXTRA: usize = 3;
    let mut hs: Vec<Handle<B>> = (0..bound + EXTRA).map(|_| Handle::new(buf.clone())).collect();
    drop(buf);
    let used = [0, 1, bound / 2, bound][choose(4, "reservations used")].min(bound);
    let given = [0, 1, 2, bound][choose(4, "reservations given up")].min(bound - used);
    let mut rs = vec![];
    for i in 0..bound + EXTRA {
        let r = hs[i].poll_ready();
        check!(r.is_pending() == (i >= bound), "poll_ready of handle {i} returned {r:?} with a bound of {bound} and {i} slots taken");
        if i < used {
            rs.push(hs[i].call(i as u32));
        }
    }
    for h in &mut hs[used..used + given] {
        h.drop_svc();
    }
    let woken = hs[bound..].iter().filter(|h| h.flag.is()).count();
    check!(woken == given.min(EXTRA), "{woken} of {EXTRA} waiting callers were woken by {given} reservations given up");
    for (i, h) in hs[bound..].iter_mut().enumerate() {
        let r = h.poll_ready();
        check!(r.is_pending() == (i >= given), "{given} of {bound} reservations were given up and {i} taken again, the next caller was told {r:?}");
    }
    // the runtime lets the worker take a limited number of requests in a row, after which it wakes itself
    let (flag, waker) = Flag::new();
    for round in 0..=bound / 32 {
        if let Some(w) = worker.as_mut().filter(|_| round == 0 || flag.take()) {
            let _ = Pin::new(w).poll(&mut Context::from_waker(&waker));
        }
        settle().await;
    }
    for (i, r) in rs.iter_mut().enumerate() {
        check!(r.poll(), "request {i} of {used} was not answered by an idle service");
        check!(matches!(r.out, Some(Ok(a)) if a == (Rsp { svc: 0, fut: i, req: i as u32 })), "request {i} ended with {:?}", r.out);
    }
    let mut free = used + given - given.min(EXTRA);
    // those who wait come first
    for i in (bound + given.min(EXTRA)..hs.len()).chain(0..used) {
        let r = hs[i].poll_ready();
        check!(r.is_pending() == (free == 0), "{free} of {bound} slots are free, the next caller was told {r:?}");
        free -= r.is_ready() as usize;
    }
}

fn c04(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let menu = Menu { clone: 0, drop_h: false, drop_w: true, cancel: true };
    for (bound, n, depth) in t.pick(vec![(1, 2, 8), (2, 2, 8), (1, 3, 7)], vec![(1, 2, 10), (2, 2, 10), (1, 3, 9), (2, 3, 9)]) {
        v.push(Scenario::new(format!("ops bound={bound} clones={n} depth={depth}"), 0, move || ops(bound, n, depth, FAILING, menu)));
        v.push(Scenario::new(format!("ops+handle-drops bound={bound} clones={n} depth={}", depth - 1), 0, move || {
            ops(bound, n, depth - 1, FAILING, Menu { drop_h: true, clone: n + 1, cancel: false, ..menu })
        }));
    }
    for bound in t.pick(vec![5usize, 12], vec![4, 5, 8, 12, 16]) {
        let depth = t.pick(3, 4) - (bound > 8) as usize;
        v.push(Scenario::new(format!("burst bound={bound} depth={depth}"), 0, move || burst(bound, depth, FAILING, Menu { drop_h: true, ..menu })));
    }
    for (full, bound, n, reqs, dev) in t.pick(
        vec![(true, 1, 2, 1, 2), (true, 2, 2, 1, 1), (false, 1, 2, 2, 4), (false, 2, 3, 1, 4)],
        vec![(true, 1, 2, 2, 2), (true, 2, 3, 1, 1), (false, 1, 2, 2, 7), (false, 2, 3, 1, 6), (false, 2, 2, 3, 6), (false, 1, 3, 2, 6)],
    ) {
        v.push(Scenario::new(
            format!("tasks bound={bound} clients={n} requests={reqs} {}", if full { "all-orders" } else { "bounded-orders" }),
            dev,
            move || tasks(bound, n, reqs, full, Cfg { dev: true, ..FAILING }, true),
        ));
    }
    v
}

/// Client tasks and a worker task in every order; only woken tasks are polled.
async fn tasks(bound: usize, n: usize, reqs: usize, full: bool, cfg: Cfg, worker_may_die: bool) {
    #[derive(Default)]
    struct Log {
        sent: Vec<u32>,
        cancelled: Vec<u32>,
        got: Vec<(u32, Result<Rsp, Er>)>,
    }
    let log = Rc::new(RefCell::new(Log::default()));
    let via_layer = choose(2, "construction") == 1;
    let (buf, worker): (B, Option<Wk>) = if via_layer {
        (tower::buffer::BufferLayer::new(bound).layer(env::svc(cfg)), None)
    } else {
        let (b, w) = Buffer::pair(env::svc(cfg), bound);
        (b, Some(Box::pin(w) as Wk))
    };
    let mut s = Sched::new();
    if let Some(w) = worker {
        let i = s.spawn("worker", w);
        s.tasks[i].droppable = worker_may_die;
    }
    let wtasks = s.tasks.len();
    for c in 0..n {
        let mut b = buf.clone();
        let log = log.clone();
        let i = s.spawn(format!("client{c}"), async move {
            for r in 0..reqs {
                let id = (c * 10 + r) as u32;
                match std::future::poll_fn(|cx| b.poll_ready(cx)).await {
                    Ok(()) => {}
                    Err(e) => {
                        let e = classify(&e);
                        obs!("client{c} readiness {e:?}");
                        log.borrow_mut().got.push((id, Err(e)));
                        continue;
                    }
                }
                log.borrow_mut().sent.push(id);
                let f = b.call(id);
                struct OnDrop(Rc<RefCell<Log>>, u32, bool);
                impl Drop for OnDrop {
                    fn drop(&mut self) {
                        if self.2 {
                            self.0.borrow_mut().cancelled.push(self.1)
                        }
                    }
                }
                let mut g = OnDrop(log.clone(), id, true);
                let out = match f.await {
                    Ok(r) => Ok(r),
                    Err(e) => Err(classify(&e)),
                };
                g.2 = false;
                obs!("client{c} request {id} got {out:?}");
                log.borrow_mut().got.push((id, out));
            }
        });
        s.tasks[i].droppable = true;
    }
    drop(buf);
    // per-dispatch check: the request's future must still be alive, and order must hold
    let seen = RefCell::new(0usize);
    let l2 = log.clone();
    let inv = move |_: &Sched| {
        let calls: Vec<u32> = env::w(|w| w.calls[*seen.borrow()..].iter().map(|c| w.futs[c.1].req).collect());
        let l = l2.borrow();
        for r in &calls {
            check!(!l.cancelled.contains(r), "request {r} was dispatched although its response future had been dropped before");
        }
        *seen.borrow_mut() += calls.len();
    };
    s.run(full, 300, inv).await;
    s.assert_no_lost_wakeup().await;
    let l = log.borrow();
    let disp: Vec<u32> = env::w(|w| w.calls.iter().map(|c| w.futs[c.1].req).collect());
    for i in 0..disp.len() {
        check!(!disp[..i].contains(&disp[i]), "request {} was dispatched twice", disp[i]);
    }
    let pos: Vec<usize> = disp.iter().map(|d| l.sent.iter().position(|s| s == d).unwrap_or_else(|| fail!("request {d} dispatched but never sent"))).collect();
    check!(pos.windows(2).all(|p| p[0] < p[1]), "requests were dispatched in the order {disp:?} but sent in the order {:?}", l.sent);
    let failed: Option<EnvErr> = env::w(|w| match w.svcs[0].state {
        Rd::Failed(s) => Some(EnvErr { ready: true, of: s as usize }),
        _ => None,
    });
    let worker_dropped = wtasks == 1 && s.tasks[0].cancelled;
    for r in &l.sent {
        check!(
            disp.contains(r) || l.cancelled.contains(r) || failed.is_some() || worker_dropped,
            "request {r} was accepted but never dispatched"
        );
    }
    for (id, out) in &l.got {
        let fid = env::w(|w| w.futs.iter().position(|f| f.req == *id));
        match (out, fid) {
            (Ok(_), None) => fail!("request {id} got {out:?} without having been dispatched"),
            (_, Some(f)) => {
                let want = env::expected(f).map(|r| r.map_err(Er::Env));
                check!(Some(*out) == want, "request {id} got {out:?} instead of {want:?}");
            }
            (Err(e), None) => match (failed, worker_dropped) {
                (Some(f), false) => check!(*e == Er::BufSvc(f), "request {id} failed with {e:?} instead of the service's error"),
                (Some(f), true) => check!(*e == Er::BufSvc(f) || *e == Er::BufClosed, "request {id} failed with {e:?}"),
                (None, true) => check!(*e == Er::BufClosed, "request {id} failed with {e:?} instead of closed"),
                (None, false) => fail!("request {id} failed with {e:?} although neither service nor worker failed"),
            },
        }
    }
    for i in wtasks..s.tasks.len() {
        check!(s.tasks[i].fut.is_none(), "client {} hangs", i - wtasks);
    }
    let _: Option<BoxError> = None;
}
