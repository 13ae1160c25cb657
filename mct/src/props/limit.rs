//! C06 under thread interleavings: clones of a limited service used by threads of their own.
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, obs, Task};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::limit::ConcurrencyLimit;
use tower_service::Service;

#[derive(Default)]
struct World {
    in_flight: usize,
    reserved: usize,
    gate_open: bool,
    wakers: Vec<Waker>,
}
type W = Arc<Mutex<World>>;
fn w(x: &W) -> std::sync::MutexGuard<'_, World> {
    x.lock().unwrap_or_else(|e| e.into_inner())
}
#[derive(Clone)]
struct Svc {
    w: W,
    max: usize,
    gated: bool,
}
struct Resp {
    w: W,
    v: u32,
    yields: u32,
}
impl Future for Resp {
    type Output = Result<u32, String>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        mc_rt::point("request runs");
        if self.yields > 0 {
            self.yields -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(if self.v % 3 == 0 { Err(format!("e{}", self.v)) } else { Ok(self.v * 10) })
    }
}
impl Drop for Resp {
    fn drop(&mut self) {
        // the request occupies the service until this is over
        mc_rt::point("request ends");
        w(&self.w).in_flight -= 1;
    }
}
impl Service<u32> for Svc {
    type Response = u32;
    type Error = String;
    type Future = Resp;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let mut g = w(&self.w);
        if self.gated && !g.gate_open {
            g.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, v: u32) -> Resp {
        mc_rt::point("request begins");
        let mut g = w(&self.w);
        g.in_flight += 1;
        let (n, max) = (g.in_flight, self.max);
        check!(n <= max, "{n} requests are in flight although the limit is {max}");
        drop(g);
        Resp { w: self.w.clone(), v, yields: v % 2 }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Step {
    /// a whole request
    Call(u32),
    /// dropped unpolled, or after its first poll
    Cancel(u32, bool),
    /// a reservation which is dropped with its handle
    Reserve,
    /// a reservation which survives a clone
    CloneThen(u32),
}
fn ready(c: &mut ConcurrencyLimit<Svc>, wd: &W, max: usize) {
    let t = Task::new();
    loop {
        t.wait("a slot");
        if let Poll::Ready(r) = t.poll_fn(|cx| c.poll_ready(cx)) {
            check!(r.is_ok(), "readiness fails");
            break;
        }
    }
    let mut g = w(wd);
    g.reserved += 1;
    let (a, b) = (g.reserved, g.in_flight);
    check!(a <= max && b <= max, "{a} reservations and {b} requests at a limit of {max}");
}
fn client(mut c: ConcurrencyLimit<Svc>, wd: W, max: usize, steps: &[Step]) {
    for s in steps {
        ready(&mut c, &wd, max);
        let call = |c: &mut ConcurrencyLimit<Svc>, v: u32| {
            w(&wd).reserved -= 1;
            c.call(v)
        };
        match *s {
            Step::Call(v) | Step::CloneThen(v) => {
                let other = (matches!(s, Step::CloneThen(_))).then(|| c.clone());
                let f = call(&mut c, v);
                let r = mc_rt::block_on("its response", f);
                obs!("{v} -> {r:?}");
                check!(r == if v % 3 == 0 { Err(format!("e{v}")) } else { Ok(v * 10) }, "request {v} got {r:?}");
                if let Some(o) = other {
                    c = o;
                }
            }
            Step::Cancel(v, polled) => {
                let mut f = Box::pin(call(&mut c, v));
                if polled {
                    let t = Task::new();
                    let _ = t.poll(f.as_mut());
                }
                obs!("cancel {v}");
                drop(f);
            }
            Step::Reserve => {
                w(&wd).reserved -= 1;
                obs!("handle with a reservation dropped");
                break;
            }
        }
    }
    drop(c);
}
fn scenario(name: &str, dev: u32, max: Vec<usize>, gated: bool, progs: Vec<Vec<Vec<Step>>>) -> Scenario {
    Scenario::new(name, dev, move || {
        let max = max[choose(max.len(), "limit")];
        let p = &progs[choose(progs.len(), "program")];
        obs!("{max} {p:?}");
        let wd: W = Default::default();
        let c = ConcurrencyLimit::new(Svc { w: wd.clone(), max, gated }, max);
        let mut bodies: Vec<(&str, mc_rt::Body)> = vec![];
        for (i, s) in p.iter().enumerate() {
            let (c, wd, s) = (c.clone(), wd.clone(), s.clone());
            bodies.push((["C1", "C2", "C3"][i], Box::new(move || client(c, wd, max, &s))));
        }
        if gated {
            let wd = wd.clone();
            bodies.push((
                "env",
                Box::new(move || {
                    mc_rt::point("the inner service becomes ready");
                    let ws = {
                        let mut g = w(&wd);
                        g.gate_open = true;
                        std::mem::take(&mut g.wakers)
                    };
                    ws.into_iter().for_each(|w| w.wake());
                }),
            ));
        }
        mc_rt::threads(bodies);
        let n = w(&wd).in_flight;
        check!(n == 0, "{n} requests never ended");
        // every slot is back
        let mut hs: Vec<_> = (0..=max).map(|_| c.clone()).collect();
        for (i, h) in hs.iter_mut().enumerate() {
            let r = h.poll_ready(&mut Context::from_waker(Waker::noop()));
            check!(r.is_ready() == (i < max), "afterwards {} of {max} slots can be had", if i < max { i } else { i + 1 });
        }
    })
}
pub fn c06() -> Prop {
    use Step::*;
    Prop {
        id: "C06",
        scenarios: |t| {
            let two = vec![
                vec![vec![Call(1), Call(2)], vec![Call(3), Call(4)]],
                vec![vec![Cancel(1, true), Call(2)], vec![Call(3)]],
                vec![vec![Cancel(2, false), Reserve], vec![Call(3), Call(5)]],
                vec![vec![CloneThen(1), Call(3)], vec![Call(4), Reserve]],
            ];
            let three = vec![
                vec![vec![Call(1)], vec![Call(2)], vec![Call(3)]],
                vec![vec![Reserve], vec![Cancel(1, true)], vec![Call(2), Call(3)]],
                vec![vec![CloneThen(1)], vec![Cancel(2, false)], vec![Reserve]],
            ];
            vec![
                scenario("threads: two clones", t.pick(4, 6), vec![1, 2], false, two.clone()),
                scenario("threads: three clones", t.pick(4, 5), vec![1, 2], false, three.clone()),
                scenario("threads: two clones waiting for the inner service as well", t.pick(4, 5), vec![1], true, two),
            ]
        },
        assumptions: &["the insides of tokio's semaphore are trusted; threads interleave at whole semaphore operations and at the service's own steps"],
    }
}
