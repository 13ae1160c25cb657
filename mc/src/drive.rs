//! Helpers for operation-sequence scenarios: explicit handles and response futures.
#![allow(dead_code)]
use crate::sched::Flag;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower_service::Service;

/// A service handle owned by the driver, with its own waker.
pub struct Handle<S> {
    pub svc: Option<S>,
    pub flag: Arc<Flag>,
    pub waker: Waker,
    /// result of the last poll_ready since the last call
    pub st: H,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    Idle,
    Waiting,
    Ready,
    Failed,
    Gone,
}
impl<S> Handle<S> {
    pub fn new(svc: S) -> Self {
        let (flag, waker) = Flag::new();
        Handle { svc: Some(svc), flag, waker, st: H::Idle }
    }
    pub fn alive(&self) -> bool {
        self.svc.is_some()
    }
    pub fn poll_ready<Req>(&mut self) -> Poll<Result<(), S::Error>>
    where
        S: Service<Req>,
    {
        self.flag.clear();
        let w = self.waker.clone();
        let r = self.svc.as_mut().unwrap().poll_ready(&mut Context::from_waker(&w));
        self.st = match &r {
            Poll::Pending => H::Waiting,
            Poll::Ready(Ok(())) => H::Ready,
            Poll::Ready(Err(_)) => H::Failed,
        };
        r
    }
    pub fn call<Req>(&mut self, req: Req) -> Resp<S::Future>
    where
        S: Service<Req>,
    {
        assert_eq!(self.st, H::Ready, "driver must respect the contract");
        self.st = H::Idle;
        Resp::new(self.svc.as_mut().unwrap().call(req))
    }
    /// A call that was not preceded by a readiness poll (which most middlewares may panic at).
    pub fn call_unready<Req>(&mut self, req: Req) -> Resp<S::Future>
    where
        S: Service<Req>,
    {
        self.st = H::Idle;
        Resp::new(self.svc.as_mut().unwrap().call(req))
    }
    pub fn drop_svc(&mut self) {
        self.st = H::Gone;
        self.svc = None;
    }
}
impl<S: Clone> Handle<S> {
    pub fn dup(&self) -> Self {
        Handle::new(self.svc.as_ref().unwrap().clone())
    }
}

pub struct Resp<F: Future> {
    pub fut: Option<Pin<Box<F>>>,
    pub flag: Arc<Flag>,
    pub waker: Waker,
    pub polled: bool,
    pub out: Option<F::Output>,
}
impl<F: Future> Resp<F> {
    pub fn new(f: F) -> Self {
        let (flag, waker) = Flag::new();
        Resp { fut: Some(Box::pin(f)), flag, waker, polled: false, out: None }
    }
    /// one that was never made
    pub fn gone() -> Self {
        let (flag, waker) = Flag::new();
        Resp { fut: None, flag, waker, polled: false, out: None }
    }
    /// Poll; once finished keeps the output and the (completed) future is dropped.
    pub fn poll(&mut self) -> bool {
        self.poll_keep(false)
    }
    /// As `poll`; if `keep`, the completed future stays alive until `drop_fut`.
    pub fn poll_keep(&mut self, keep: bool) -> bool {
        if self.out.is_some() {
            return true;
        }
        let w = self.waker.clone();
        self.flag.clear();
        self.polled = true;
        let f = match self.fut.as_mut() {
            Some(f) => f,
            None => return false,
        };
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(o) => {
                self.out = Some(o);
                if !keep {
                    self.fut = None;
                }
                true
            }
            Poll::Pending => false,
        }
    }
    pub fn live(&self) -> bool {
        self.fut.is_some() && self.out.is_none()
    }
    pub fn drop_fut(&mut self) {
        self.fut = None;
    }
    /// must be polled: never polled, or woken since the last poll
    pub fn due(&self) -> bool {
        self.live() && (!self.polled || self.flag.is())
    }
}

/// What a boxed error of a middleware is made of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Er {
    /// the inner service's or inner future's own error
    Env(crate::env::EnvErr),
    /// `buffer::error::ServiceError` carrying this error
    BufSvc(crate::env::EnvErr),
    BufClosed,
    Overloaded,
    Elapsed,
    Other,
}
pub fn classify(e: &tower::BoxError) -> Er {
    use crate::env::EnvErr;
    if let Some(x) = e.downcast_ref::<EnvErr>() {
        return Er::Env(*x);
    }
    if let Some(s) = e.downcast_ref::<tower::buffer::error::ServiceError>() {
        use std::error::Error;
        return match s.source().and_then(|s| s.downcast_ref::<EnvErr>()) {
            Some(x) => Er::BufSvc(*x),
            None => Er::Other,
        };
    }
    if e.is::<tower::buffer::error::Closed>() {
        return Er::BufClosed;
    }
    if e.is::<tower::load_shed::error::Overloaded>() {
        return Er::Overloaded;
    }
    if e.is::<tower::timeout::error::Elapsed>() {
        return Er::Elapsed;
    }
    Er::Other
}
