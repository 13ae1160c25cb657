//! Deterministic single-threaded task scheduler with flag wakers.
#![allow(dead_code)]

use crate::core::{choose, deviate, hash_now};
use crate::env;
use crate::{fail, note, obs};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Debug, Default)]
pub struct Flag {
    woken: AtomicBool,
    pub count: AtomicUsize,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.count.fetch_add(1, Ordering::SeqCst);
    }
}
impl Flag {
    pub fn new() -> (Arc<Flag>, Waker) {
        let f = Arc::new(Flag::default());
        let w = Waker::from(f.clone());
        (f, w)
    }
    pub fn is(&self) -> bool {
        self.woken.load(Ordering::SeqCst)
    }
    pub fn clear(&self) {
        self.woken.store(false, Ordering::SeqCst)
    }
    pub fn take(&self) -> bool {
        self.woken.swap(false, Ordering::SeqCst)
    }
}

/// Let everything spawned on the runtime run until idle.
pub async fn settle() {
    for _ in 0..3 {
        tokio::task::yield_now().await;
    }
}
/// Advance virtual time and run timers.
pub async fn advance(ms: u64) {
    obs!("time +{ms}ms");
    tokio::time::advance(Duration::from_millis(ms)).await;
    settle().await;
}

/// Poll a future once with a fresh flag waker (helper for op-sequence scenarios).
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>, w: &Waker) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(w))
}

pub struct Task {
    pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub flag: Arc<Flag>,
    waker: Waker,
    pub name: String,
    pub droppable: bool,
    pub cancelled: bool,
}
#[derive(Default)]
pub struct Sched {
    pub tasks: Vec<Task>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Poll(usize),
    Env(env::Act),
    Drop(usize),
}

impl Sched {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn spawn(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
        let (flag, waker) = Flag::new();
        flag.woken.store(true, Ordering::SeqCst);
        self.tasks.push(Task {
            fut: Some(Box::pin(f)),
            flag,
            waker,
            name: name.into(),
            droppable: false,
            cancelled: false,
        });
        self.tasks.len() - 1
    }
    pub fn done(&self, i: usize) -> bool {
        self.tasks[i].fut.is_none()
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].flag.is()).collect()
    }
    /// Poll task `i`; true if it finished.
    pub fn poll(&mut self, i: usize) -> bool {
        let t = &mut self.tasks[i];
        t.flag.clear();
        note!("poll task {}", t.name);
        let mut f = match t.fut.take() {
            Some(f) => f,
            None => return true,
        };
        let w = t.waker.clone();
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(()) => {
                obs!("task {} done", self.tasks[i].name);
                true
            }
            Poll::Pending => {
                self.tasks[i].fut = Some(f);
                false
            }
        }
    }
    pub fn cancel(&mut self, i: usize) {
        obs!("task {} dropped", self.tasks[i].name);
        self.tasks[i].cancelled = true;
        let f = self.tasks[i].fut.take();
        drop(f);
    }
    /// All enabled steps. Runnable tasks first, then environment events, then cancellations.
    pub fn steps(&self, with_env: bool) -> Vec<Step> {
        let mut v: Vec<Step> = self.runnable().into_iter().map(Step::Poll).collect();
        if with_env {
            v.extend(env::acts().into_iter().map(Step::Env));
        }
        v
    }
    pub fn drops(&self) -> Vec<Step> {
        (0..self.tasks.len())
            .filter(|&i| self.tasks[i].droppable && self.tasks[i].fut.is_some())
            .map(Step::Drop)
            .collect()
    }
    pub fn exec(&mut self, s: Step) {
        match s {
            Step::Poll(i) => {
                self.poll(i);
            }
            Step::Env(a) => env::act(a),
            Step::Drop(i) => self.cancel(i),
        }
    }
    /// Run until nothing can happen. Scheduling among enabled steps branches fully when `full`,
    /// otherwise deviating from the default order costs deviations. Cancellations always cost one.
    pub async fn run(&mut self, full: bool, horizon: usize, mut invariant: impl FnMut(&Sched)) {
        for _ in 0..horizon {
            settle().await;
            invariant(self);
            let mut st = self.steps(true);
            if st.is_empty() {
                return;
            }
            let dr = self.drops();
            // cancellation first decides: 0 = none
            if !dr.is_empty() {
                let d = deviate(dr.len() + 1, "cancel?");
                if d > 0 {
                    self.exec(dr[d - 1]);
                    continue;
                }
            }
            let c = if full { choose(st.len(), "step") } else { deviate(st.len(), "step") };
            let s = st.swap_remove(c);
            self.exec(s);
        }
        if !self.steps(true).is_empty() {
            fail!("no quiescence within {horizon} scheduler steps: livelock");
        }
    }
    /// Lost-wakeup oracle: at quiescence, re-polling a pending task must not make progress.
    pub async fn assert_no_lost_wakeup(&mut self) {
        self.assert_no_lost_wakeup_of(usize::MAX).await
    }
    /// Tasks from `helpers` on are not callers: for them only dispatching a request or waking
    /// another task counts as progress (not, say, noticing that a request was abandoned).
    pub async fn assert_no_lost_wakeup_of(&mut self, helpers: usize) {
        for i in 0..self.tasks.len() {
            if self.tasks[i].fut.is_some() && !self.tasks[i].flag.is() {
                let h = hash_now();
                let calls = env::n_calls();
                let done = self.poll(i);
                settle().await;
                let others: Vec<usize> = self.runnable();
                if i < helpers && (done || hash_now() != h) || env::n_calls() != calls || !others.is_empty() {
                    fail!(
                        "lost wakeup: task `{}` was pending with no wakeup scheduled, but polling it made progress (finished={done})",
                        self.tasks[i].name
                    );
                }
            }
        }
    }
}
