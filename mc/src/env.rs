//! The environment: monitored inner services whose readiness, responses and errors are decided by
//! the explorer.  Every handle is just an index into a thread-local table, so everything is `Send`.
#![allow(dead_code)]

use crate::core::{choose, deviate};
use crate::{fail, note, obs};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tower_service::Service;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rd {
    Unknown,
    Pending,
    Ready,
    Failed(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R {
    Ready,
    Pend,
    Err,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O {
    Ok,
    Err,
    Pend,
}
/// How an environment service decides. The first entry of each menu is the default.
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub ready: &'static [R],
    pub wake: &'static [R],
    pub call: &'static [O],
    pub fin: &'static [O],
    /// decisions cost deviations
    pub dev: bool,
    /// a service which said Ready may say Pending on a later poll (costs a deviation)
    pub revoke: bool,
    /// a readiness failure is transient: the next poll is answered anew
    pub heal: bool,
    /// answer chosen anew at each poll of an unfinished future (instead of env completion)
    pub quiet: bool,
}
pub const ALWAYS: Cfg = Cfg {
    ready: &[R::Ready],
    wake: &[R::Ready],
    call: &[O::Ok],
    fin: &[O::Ok],
    dev: false,
    revoke: false,
    heal: false,
    quiet: false,
};
pub const FREE: Cfg = Cfg {
    ready: &[R::Ready, R::Pend, R::Err],
    wake: &[R::Ready, R::Err],
    call: &[O::Pend, O::Ok, O::Err],
    fin: &[O::Ok, O::Err],
    dev: false,
    revoke: false,
    heal: false,
    quiet: false,
};
/// Everything pending until the environment acts; no errors.
pub const LAZY: Cfg = Cfg { call: &[O::Pend], ..ALWAYS };

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rsp {
    pub svc: usize,
    pub fut: usize,
    pub req: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct EnvErr {
    /// true: readiness error
    pub ready: bool,
    /// service index (readiness) or future index (call)
    pub of: usize,
}
impl std::fmt::Display for EnvErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for EnvErr {}
pub type EnvRes = Result<Rsp, EnvErr>;

pub struct SvcRec {
    pub parent: Option<usize>,
    pub root: usize,
    pub state: Rd,
    /// the answer to the most recent readiness poll since the last call
    pub seen: Rd,
    /// has answered ready at least once
    pub ever_ready: bool,
    pub waker: Option<Waker>,
    pub polls: usize,
    pub ncalls: usize,
    pub dropped: bool,
    pub cfg: Cfg,
}
pub struct FutRec {
    pub svc: usize,
    pub req: u32,
    pub res: Option<EnvRes>,
    pub done: bool,
    pub taken: bool,
    pub dropped: bool,
    pub waker: Option<Waker>,
    pub polls: usize,
}
#[derive(Default)]
pub struct World {
    pub svcs: Vec<SvcRec>,
    pub futs: Vec<FutRec>,
    /// (svc, fut) in dispatch order
    pub calls: Vec<(usize, usize)>,
    pub gates: Vec<GateRec>,
    pub ext: Vec<i64>,
}
thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }

/// what wrapped code panics with where the environment chooses so
pub struct EnvPanic;
thread_local! {
    static PANICS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANICKED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// From now on wrapped code may panic (until the end of this execution).
pub fn panics(on: bool) {
    PANICS.set(on);
}
pub fn panicked() -> usize {
    PANICKED.get()
}
pub fn may_panic(label: &'static str) {
    if PANICS.get() && !std::thread::panicking() && deviate(2, label) == 1 {
        obs!("{label}");
        PANICKED.set(PANICKED.get() + 1);
        // (does not run the panic hook)
        std::panic::resume_unwind(Box::new(EnvPanic));
    }
}
/// None if the wrapped code panicked because the environment chose so.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(p) if p.is::<EnvPanic>() => None,
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub fn reset() {
    PANICS.set(false);
    PANICKED.set(0);
    let old = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    drop(old); // wakers drop outside the borrow
}
pub fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn try_w(f: impl FnOnce(&mut World)) {
    let _ = W.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            f(&mut w)
        }
    });
}

#[derive(Debug)]
pub struct EnvSvc {
    pub id: usize,
}
#[derive(Debug)]
pub struct EnvFut {
    pub id: usize,
}

pub fn svc(cfg: Cfg) -> EnvSvc {
    w(|w| {
        let id = w.svcs.len();
        w.svcs.push(SvcRec {
            parent: None,
            root: id,
            state: Rd::Unknown,
            seen: Rd::Unknown,
            ever_ready: false,
            waker: None,
            polls: 0,
            ncalls: 0,
            dropped: false,
            cfg,
        });
        EnvSvc { id }
    })
}

impl Clone for EnvSvc {
    fn clone(&self) -> Self {
        w(|w| {
            let id = w.svcs.len();
            let p = &w.svcs[self.id];
            let rec = SvcRec {
                parent: Some(self.id),
                root: p.root,
                state: Rd::Unknown,
                seen: Rd::Unknown,
                ever_ready: false,
                waker: None,
                polls: 0,
                ncalls: 0,
                dropped: false,
                cfg: p.cfg,
            };
            w.svcs.push(rec);
            EnvSvc { id }
        })
    }
}
impl Drop for EnvSvc {
    fn drop(&mut self) {
        try_w(|w| {
            if let Some(s) = w.svcs.get_mut(self.id) {
                s.dropped = true;
                s.waker = None;
            }
        })
    }
}
impl Drop for EnvFut {
    fn drop(&mut self) {
        try_w(|w| {
            if let Some(f) = w.futs.get_mut(self.id) {
                f.dropped = true;
                f.waker = None;
            }
        })
    }
}

fn pick<T: Copy>(m: &[T], dev: bool, label: &str) -> T {
    let i = if dev { deviate(m.len(), label) } else { choose(m.len(), label) };
    m[i]
}

impl EnvSvc {
    pub fn poll_ready_env(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        may_panic("inner panics while becoming ready");
        let id = self.id;
        let (st, cfg) = w(|w| {
            let s = &mut w.svcs[id];
            s.polls += 1;
            (s.state, s.cfg)
        });
        let new = match st {
            Rd::Failed(_) | Rd::Unknown if st == Rd::Unknown || cfg.heal => match pick(cfg.ready, cfg.dev, "svc readiness") {
                R::Ready => Rd::Ready,
                R::Pend => Rd::Pending,
                R::Err => Rd::Failed(id as u32),
            },
            Rd::Ready if cfg.revoke && deviate(2, "svc readiness revoked") == 1 => Rd::Pending,
            s => s,
        };
        let old = w(|w| {
            let s = &mut w.svcs[id];
            s.state = new;
            s.seen = new;
            s.ever_ready |= new == Rd::Ready;
            if new == Rd::Pending {
                s.waker.replace(cx.waker().clone())
            } else {
                None
            }
        });
        drop(old);
        if !cfg.quiet {
            note!("inner {id} poll_ready -> {new:?}");
        }
        match new {
            Rd::Ready => Poll::Ready(Ok(())),
            Rd::Pending => Poll::Pending,
            Rd::Failed(_) => Poll::Ready(Err(EnvErr { ready: true, of: id })),
            Rd::Unknown => unreachable!(),
        }
    }
    pub fn call_env(&mut self, req: u32) -> EnvFut {
        let id = self.id;
        let (st, cfg) = w(|w| (w.svcs[id].seen, w.svcs[id].cfg));
        if st != Rd::Ready {
            fail!("readiness discipline: inner service instance {id} was called with request {req} without having reported ready since its previous call (its last answer: {st:?})");
        }
        may_panic("inner panics in its call");
        let o = pick(cfg.call, cfg.dev, "call outcome");
        let fid = w(|w| {
            let s = &mut w.svcs[id];
            s.state = Rd::Unknown;
            s.seen = Rd::Unknown;
            s.ncalls += 1;
            let fid = w.futs.len();
            let res = match o {
                O::Ok => Some(Ok(Rsp { svc: id, fut: fid, req })),
                O::Err => Some(Err(EnvErr { ready: false, of: fid })),
                O::Pend => None,
            };
            w.futs.push(FutRec {
                svc: id,
                req,
                done: res.is_some(),
                res,
                taken: false,
                dropped: false,
                waker: None,
                polls: 0,
            });
            w.calls.push((id, fid));
            fid
        });
        obs!("inner {id} called req={req} fut={fid} {o:?}");
        EnvFut { id: fid }
    }
}
impl Service<u32> for EnvSvc {
    type Response = Rsp;
    type Error = EnvErr;
    type Future = EnvFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.poll_ready_env(cx)
    }
    fn call(&mut self, req: u32) -> EnvFut {
        self.call_env(req)
    }
}
impl Future for EnvFut {
    type Output = EnvRes;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<EnvRes> {
        may_panic("response panics");
        let id = self.id;
        let (r, taken) = w(|w| {
            let f = &mut w.futs[id];
            f.polls += 1;
            let t = f.taken;
            if let Some(r) = f.res {
                f.taken = true;
                (Some(r), t)
            } else {
                f.waker = Some(cx.waker().clone());
                (None, t)
            }
        });
        if taken {
            fail!("inner response future {id} was polled again after it had completed");
        }
        match r {
            Some(r) => Poll::Ready(r),
            None => Poll::Pending,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Wake(usize),
    Complete(usize),
    Open(usize),
}

/// A future that finishes when the environment opens it (or at once).
pub struct GateRec {
    pub open: bool,
    pub dropped: bool,
    pub done: bool,
    pub waker: Option<Waker>,
    pub tag: u32,
}
#[derive(Debug)]
pub struct Gate {
    pub id: usize,
}
pub fn gate(open: bool, tag: u32) -> Gate {
    w(|w| {
        w.gates.push(GateRec { open, dropped: false, done: false, waker: None, tag });
        Gate { id: w.gates.len() - 1 }
    })
}
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let (open, done) = w(|w| {
            let g = &mut w.gates[self.id];
            let d = g.done;
            if g.open {
                g.done = true;
            } else {
                g.waker = Some(cx.waker().clone());
            }
            (g.open, d)
        });
        if done {
            fail!("gate future {} was polled again after it had completed", self.id);
        }
        if open {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        try_w(|w| {
            if let Some(g) = w.gates.get_mut(self.id) {
                g.dropped = true;
                g.waker = None;
            }
        })
    }
}
pub fn open(i: usize) {
    obs!("env: gate {i} opens");
    let wk = w(|w| {
        w.gates[i].open = true;
        w.gates[i].waker.take()
    });
    if let Some(k) = wk {
        k.wake()
    }
}
/// Environment events that can happen now.
pub fn acts() -> Vec<Act> {
    w(|w| {
        let mut v = vec![];
        for (i, s) in w.svcs.iter().enumerate() {
            if s.state == Rd::Pending && !s.dropped {
                v.push(Act::Wake(i));
            }
        }
        for (i, f) in w.futs.iter().enumerate() {
            if !f.done && !f.dropped {
                v.push(Act::Complete(i));
            }
        }
        for (i, g) in w.gates.iter().enumerate() {
            if !g.open && !g.dropped {
                v.push(Act::Open(i));
            }
        }
        v
    })
}
pub fn act(a: Act) {
    match a {
        Act::Open(i) => open(i),
        Act::Wake(i) => {
            let cfg = w(|w| w.svcs[i].cfg);
            let r = pick(cfg.wake, cfg.dev, "readiness outcome");
            wake_svc(i, r);
        }
        Act::Complete(i) => {
            let cfg = w(|w| w.svcs[w.futs[i].svc].cfg);
            let o = pick(cfg.fin, cfg.dev, "response outcome");
            complete(i, o == O::Ok);
        }
    }
}
pub fn wake_svc(i: usize, r: R) {
    obs!("env: service {i} becomes {r:?}");
    let wk = w(|w| {
        let s = &mut w.svcs[i];
        s.state = match r {
            R::Ready => Rd::Ready,
            R::Err => Rd::Failed(i as u32),
            R::Pend => Rd::Pending,
        };
        s.waker.take()
    });
    if let Some(k) = wk {
        k.wake()
    }
}
pub fn complete(i: usize, ok: bool) {
    obs!("env: response {i} completes ok={ok}");
    let wk = w(|w| {
        let f = &mut w.futs[i];
        f.done = true;
        f.res = Some(if ok { Ok(Rsp { svc: f.svc, fut: i, req: f.req }) } else { Err(EnvErr { ready: false, of: i }) });
        f.waker.take()
    });
    if let Some(k) = wk {
        k.wake()
    }
}
pub fn n_calls() -> usize {
    w(|w| w.calls.len())
}
pub fn expected(fid: usize) -> Option<EnvRes> {
    w(|w| w.futs[fid].res)
}
