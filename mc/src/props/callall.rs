//! CallAll (C25).
use crate::core::{choose, deviate, Scenario};
use crate::env::{self, Cfg, EnvErr, EnvRes, EnvSvc, Rd, O, R};
use crate::sched::Flag;
use crate::{check, fail, obs, Prop, Tier};
use futures_core::Stream;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower::util::{CallAll, CallAllUnordered};
use tower::ServiceExt;

pub const C25: Prop = Prop { id: "C25", scenarios: c25, assumptions: &["the output stream is polled again after its end only once"] };

/// The request stream, fed by the driver.
#[derive(Default)]
struct Src {
    items: VecDeque<u32>,
    ended: bool,
    end_seen: bool,
    pulled: Vec<u32>,
    polls: usize,
    waker: Option<Waker>,
}
thread_local! { static SRC: RefCell<Src> = RefCell::default(); }
fn src<T>(f: impl FnOnce(&mut Src) -> T) -> T {
    SRC.with(|s| f(&mut s.borrow_mut()))
}
struct In;
impl Stream for In {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        if src(|s| s.end_seen) {
            fail!("the request stream was polled again after it had ended");
        }
        src(|s| {
            s.polls += 1;
            if let Some(x) = s.items.pop_front() {
                s.pulled.push(x);
                Poll::Ready(Some(x))
            } else if s.ended {
                s.end_seen = true;
                Poll::Ready(None)
            } else {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

fn c25(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for ordered in [true, false] {
        for (n, depth, dev) in t.pick(vec![(2usize, 12usize, 2), (3, 10, 1), (4, 10, 0)], vec![(2, 14, 3), (3, 12, 1), (4, 12, 0)]) {
            v.push(Scenario::new(format!("ordered={ordered} requests<={n} depth={depth}"), dev, move || run(ordered, n, depth, false)));
        }
        // long runs, mostly along the default path
        for (n, dev) in t.pick(vec![(12usize, 2), (70, 1)], vec![(16, 3), (36, 2), (150, 1)]) {
            v.push(Scenario::new(format!("ordered={ordered} long run requests<={n}"), dev, move || run(ordered, n, 8 * n + 50, true)));
        }
    }
    v
}

enum C {
    O(Pin<Box<CallAll<EnvSvc, In>>>),
    U(Pin<Box<CallAllUnordered<EnvSvc, In>>>),
}

async fn run(ordered: bool, n: usize, depth: usize, long: bool) {
    const IN: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok, O::Pend, O::Err], fin: &[O::Ok, O::Err], ..env::ALWAYS };
    const LONG: Cfg = Cfg { dev: true, call: &[O::Pend, O::Ok, O::Err], ..IN };
    SRC.with(|s| *s.borrow_mut() = Src::default());
    let svc = env::svc(if long { LONG } else { IN });
    let id = svc.id;
    let mut c = match (ordered, if long { 0 } else { choose(if ordered { 2 } else { 3 }, "construction") }) {
        (true, 0) => C::O(Box::pin(CallAll::new(svc, In))),
        (true, _) => C::O(Box::pin(svc.call_all(In))),
        (false, 0) => C::U(Box::pin(CallAllUnordered::new(svc, In))),
        (false, 1) => C::U(Box::pin(svc.call_all(In).unordered())),
        (false, _) => C::U(Box::pin(CallAll::new(svc, In).unordered())),
    };
    let (flag, waker): (Arc<Flag>, Waker) = Flag::new();
    let mut sent = 0u32;
    let mut polled = false;
    // futures (by dispatch number) whose result was yielded
    let mut yielded: Vec<usize> = vec![];
    let mut ready_err_yielded = false;
    let mut over = false;
    let mut taken = false;
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Poll,
        Item,
        End,
        Env(env::Act),
        Take,
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        if !taken && !over {
            if !polled || flag.is() {
                ops.push(Op::Poll);
            } else {
                sp.push(Op::Poll);
            }
        }
        if !src(|s| s.ended) {
            if (sent as usize) < n {
                ops.push(Op::Item);
            }
            if long && (sent as usize) < n {
                sp.push(Op::End)
            } else {
                ops.push(Op::End);
            }
        }
        ops.extend(env::acts().into_iter().map(Op::Env));
        if !taken {
            sp.push(Op::Take);
        }
        if ops.is_empty() {
            break;
        }
        let d = deviate(sp.len() + 1, "spurious poll or taking the service");
        let op = if d > 0 {
            sp[d - 1]
        } else if long {
            ops[deviate(ops.len(), "op")]
        } else {
            ops[choose(ops.len(), "op")]
        };
        obs!("{op:?}");
        match op {
            Op::Item => {
                sent += 1;
                let wk = src(|s| {
                    s.items.push_back(sent);
                    s.waker.take()
                });
                if let Some(w) = wk {
                    w.wake()
                }
            }
            Op::End => {
                let wk = src(|s| {
                    s.ended = true;
                    s.waker.take()
                });
                if let Some(w) = wk {
                    w.wake()
                }
            }
            Op::Env(a) => env::act(a),
            Op::Take => {
                taken = true;
                // a service can be taken back at any time, by value or in place
                let calls = env::n_calls();
                if choose(2, "take") == 0 {
                    let s = match &mut c {
                        C::O(c) => c.as_mut().take_service(),
                        C::U(c) => c.as_mut().take_service(),
                    };
                    check!(s.id == id && !env::w(|w| w.svcs[id].dropped), "another service came back");
                } else {
                    let dummy = C::U(Box::pin(CallAllUnordered::new(env::svc(env::ALWAYS), In)));
                    let s = match std::mem::replace(&mut c, dummy) {
                        C::O(c) => unpin(c).into_inner(),
                        C::U(c) => unpin(c).into_inner(),
                    };
                    check!(s.id == id && !env::w(|w| w.svcs[id].dropped), "another service came back");
                }
                check!(env::n_calls() == calls, "taking the service called it");
                break;
            }
            Op::Poll => {
                let mut cx = Context::from_waker(&waker);
                flag.clear();
                polled = true;
                let failed_before = matches!(env::w(|w| w.svcs[id].seen), Rd::Failed(_));
                let (polls0, calls0, src0) = (env::w(|w| w.svcs[id].polls), env::n_calls(), src(|s| s.polls));
                let r: Poll<Option<EnvRes>> = match &mut c {
                    C::O(c) => c.as_mut().poll_next(&mut cx),
                    C::U(c) => c.as_mut().poll_next(&mut cx),
                };
                obs!("  -> {r:?}");
                let failed = matches!(env::w(|w| w.svcs[id].seen), Rd::Failed(_));
                if failed_before {
                    check!(env::n_calls() == calls0, "a request was dispatched after the readiness error");
                    check!(env::w(|w| w.svcs[id].polls) == polls0, "the service was polled again after its readiness error");
                    check!(src(|s| s.polls) == src0, "the request stream was polled after the readiness error");
                }
                match r {
                    Poll::Ready(Some(Err(EnvErr { ready: true, of }))) => {
                        check!(of == id && failed && !ready_err_yielded, "unexpected readiness error (yielded before: {ready_err_yielded})");
                        ready_err_yielded = true;
                        polled = false;
                    }
                    Poll::Ready(Some(x)) => {
                        let f = match x {
                            Ok(r) => r.fut,
                            Err(e) => e.of,
                        };
                        check!(f < env::n_calls() && env::expected(f) == Some(x), "result {x:?} is not that of request {f}");
                        check!(!yielded.contains(&f), "result of request {f} yielded twice");
                        if ordered {
                            check!(f == yielded.len(), "result of request {f} yielded in place of that of request {}", yielded.len());
                        }
                        yielded.push(f);
                        polled = false;
                    }
                    Poll::Ready(None) => {
                        check!(yielded.len() == env::n_calls(), "the output ended with {} of {} results", yielded.len(), env::n_calls());
                        if failed {
                            check!(ready_err_yielded, "the output ended without the readiness error");
                        } else {
                            check!(src(|s| s.end_seen), "the output ended before the input");
                            check!(env::n_calls() == src(|s| s.pulled.len()), "the output ended with an undispatched request");
                        }
                        over = true;
                        // asking again gives the end again
                        let r = match &mut c {
                            C::O(c) => c.as_mut().poll_next(&mut cx),
                            C::U(c) => c.as_mut().poll_next(&mut cx),
                        };
                        check!(matches!(r, Poll::Ready(None)), "after its end the output yielded {r:?}");
                    }
                    Poll::Pending => {}
                }
            }
        }
        // requests are dispatched once each and in stream order
        let (pulled, disp): (Vec<u32>, Vec<u32>) = (src(|s| s.pulled.clone()), env::w(|w| w.calls.iter().map(|(_, f)| w.futs[*f].req).collect()));
        check!(disp.len() <= pulled.len() && pulled[..disp.len()] == disp[..], "pulled requests {pulled:?}, dispatched {disp:?}");
        check!(pulled.len() <= disp.len() + 1, "more than one request held back: pulled {pulled:?}, dispatched {disp:?}");
        // if it said pending, and was not woken, then there is really nothing it could do
        if polled && !flag.is() && !over {
            let st = env::w(|w| w.svcs[id].state);
            let seen = env::w(|w| w.svcs[id].seen);
            let next_ready = if ordered {
                env::w(|w| w.futs.get(yielded.len()).is_some_and(|f| f.done))
            } else {
                env::w(|w| w.futs.iter().enumerate().any(|(i, f)| f.done && !yielded.contains(&i)))
            };
            check!(!next_ready, "a result is available, but the consumer is neither given it nor woken");
            let failed = matches!(seen, Rd::Failed(_));
            let held = pulled.len() > disp.len();
            if !failed {
                if held {
                    check!(st == Rd::Pending && seen == Rd::Pending, "request {} is held back with the service {st:?} (last answer {seen:?})", pulled[disp.len()]);
                } else {
                    check!(src(|s| s.items.is_empty() && (!s.ended || s.end_seen)), "the request stream has an item or has ended, but is not polled");
                }
            }
            let ended = failed || (src(|s| s.end_seen) && !held);
            check!(!(ended && yielded.len() == env::n_calls() && (!failed || ready_err_yielded)), "everything was yielded, but the output did not end");
            check!(!(failed && !ready_err_yielded), "the readiness error is held back");
        }
    }
    let _ = c;
}
/// `into_inner` wants the adapter by value; its parts are all `Unpin`.
fn unpin<T: Unpin>(p: Pin<Box<T>>) -> T {
    *Pin::into_inner(p)
}
