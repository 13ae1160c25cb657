//! C03/C04/C05 under thread interleavings: clients on threads of their own against the buffer's
//! worker, which fails, goes away or serves.
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, obs, Task};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::buffer::error::{Closed, ServiceError};
use tower::buffer::Buffer;
use tower::BoxError;
use tower_service::Service;

#[derive(Default)]
struct World {
    /// requests whose call began / returned, in order, with logical times
    calls: Vec<(u32, u64, u64)>,
    dispatched: Vec<(u32, u64)>,
    reserved: usize,
    accepted: usize,
    taken: usize,
    failed: bool,
    /// the worker is known to have ended (set after it did)
    ended: bool,
    polls: u32,
    waker: Option<Waker>,
    ready: bool,
}
type W = Arc<Mutex<World>>;
fn w(x: &W) -> std::sync::MutexGuard<'_, World> {
    x.lock().unwrap_or_else(|e| e.into_inner())
}
struct Svc {
    w: W,
    /// the readiness poll that fails
    fail_at: Option<u32>,
    /// readiness needs the environment's help
    gated: bool,
}
struct Resp(Option<u32>, bool);
impl Future for Resp {
    type Output = Result<u32, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 {
            self.1 = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(self.0.take().expect("polled once") * 10))
    }
}
impl Service<u32> for Svc {
    type Response = u32;
    type Error = BoxError;
    type Future = Resp;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let mut g = w(&self.w);
        check!(!g.failed, "the failed service is polled again");
        g.polls += 1;
        if self.fail_at == Some(g.polls) {
            g.failed = true;
            drop(g);
            obs!("service fails");
            return Poll::Ready(Err("boom".into()));
        }
        if self.gated && !g.ready {
            g.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: u32) -> Resp {
        let t = mc_rt::now();
        let mut g = w(&self.w);
        check!(!g.failed, "request {r} is dispatched after the service failed");
        check!(!g.dispatched.iter().any(|d| d.0 == r), "request {r} is dispatched twice");
        g.dispatched.push((r, t));
        g.taken += 1;
        drop(g);
        obs!("dispatch {r}");
        Resp(Some(r), r % 2 == 0)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Step {
    /// reserve, send and wait for the response
    Call(u32),
    /// reserve, send, give up at once
    Cancel(u32),
    /// reserve, then go on with the next request without a new reservation
    Send(u32),
    /// reserve and drop the handle
    Reserve,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fate {
    Serve,
    Fail(u32),
    /// the task is dropped after so many polls
    Drop(u32),
}
#[derive(Clone, Debug)]
struct Conf {
    bound: usize,
    fate: Fate,
    gated: bool,
    clients: Vec<Vec<Step>>,
}
enum End {
    Value(u32),
    Service,
    Closed,
}
fn end(c: &Conf, r: Result<u32, BoxError>) -> End {
    match r {
        Ok(v) => End::Value(v),
        Err(e) => {
            if let Some(s) = e.downcast_ref::<ServiceError>() {
                let src = std::error::Error::source(s).map(|s| s.to_string()).unwrap_or_default();
                check!(src == "boom", "an error other than the service's own: {src}");
                check!(matches!(c.fate, Fate::Fail(_)), "a service error although the service has not failed");
                End::Service
            } else if e.downcast_ref::<Closed>().is_some() {
                End::Closed
            } else {
                mc_rt::fail!("neither the service's nor the closed error: {e}");
            }
        }
    }
}
/// `before`: the worker had ended, or the service failed, before the operation began
fn judge(c: &Conf, wd: &W, what: &str, r: u32, res: Result<u32, BoxError>, ended_before: bool) {
    let e = end(c, res);
    let g = w(wd);
    let disp = g.dispatched.iter().any(|d| d.0 == r);
    match e {
        End::Value(v) => {
            obs!("{what} {r} -> {v}");
            check!(disp && v == r * 10, "request {r} got the response {v}");
        }
        End::Service => {
            obs!("{what} {r} -> service error");
            check!(!disp, "request {r} was dispatched but its caller got the service error");
        }
        End::Closed => {
            obs!("{what} {r} -> closed");
            check!(!disp, "request {r} was dispatched but its caller got the closed error");
            check!(matches!(c.fate, Fate::Drop(_)), "request {r} got the closed error although the worker is alive or the service has failed");
        }
    }
    check!(!ended_before || !disp, "request {r} was dispatched by a worker that had ended");
}
fn client(c: &Conf, wd: &W, svc: Buffer<u32, Resp>, steps: &[Step]) {
    let mut svc = svc;
    let mut pend = vec![];
    for s in steps {
        let ended = w(wd).ended;
        let t = Task::new();
        let rd = loop {
            t.wait("readiness");
            if let Poll::Ready(r) = t.poll_fn(|cx| svc.poll_ready(cx)) {
                break r;
            }
        };
        if let Err(e) = rd {
            obs!("not ready: {}", if e.is::<Closed>() { "closed" } else { "service error" });
            match end(c, Err(e)) {
                End::Closed => check!(matches!(c.fate, Fate::Drop(_)), "readiness ends with the closed error although the worker is alive or the service has failed"),
                _ => {}
            }
            // later polls and calls on this clone fail alike
            let r2 = t.poll_fn(|cx| svc.poll_ready(cx));
            check!(matches!(r2, Poll::Ready(Err(_))), "readiness after a failure is {}", if r2.is_pending() { "pending" } else { "ready" });
            continue;
        }
        check!(!ended, "a clone reports ready although the worker had ended before");
        {
            let mut g = w(wd);
            g.reserved += 1;
            let out = (g.reserved + g.accepted).saturating_sub(g.taken);
            check!(
                out <= c.bound + 1 || matches!(c.fate, Fate::Drop(_)) || g.failed,
                "{out} requests are held or reserved by a buffer of bound {}",
                c.bound
            );
        }
        match *s {
            Step::Reserve => {
                w(wd).reserved -= 1;
                obs!("handle dropped with a reservation");
                break;
            }
            Step::Call(r) | Step::Cancel(r) | Step::Send(r) => {
                {
                    let mut g = w(wd);
                    g.reserved -= 1;
                    g.accepted += 1;
                }
                let ended = w(wd).ended;
                let t0 = mc_rt::now();
                let f = svc.call(r);
                let t1 = mc_rt::now();
                w(wd).calls.push((r, t0, t1));
                match s {
                    Step::Cancel(_) => {
                        // it may or may not have been dispatched; a cancelled one stops counting
                        let mut g = w(wd);
                        g.accepted -= !g.dispatched.iter().any(|d| d.0 == r) as usize;
                        drop(g);
                        obs!("cancel {r}");
                        drop(f);
                    }
                    Step::Send(_) => pend.push((r, f, ended)),
                    _ => {
                        let res = mc_rt::block_on("its response", f);
                        judge(c, wd, "call", r, res, ended);
                    }
                }
            }
        }
    }
    drop(svc);
    for (r, f, ended) in pend {
        let res = mc_rt::block_on("its response", f);
        judge(c, wd, "call", r, res, ended);
    }
}
fn scenario(name: String, dev: u32, confs: Vec<Conf>) -> Scenario {
    Scenario::new(name, dev, move || {
        let c = &confs[choose(confs.len(), "configuration")];
        obs!("{c:?}");
        let wd: W = Default::default();
        let fail_at = if let Fate::Fail(k) = c.fate { Some(k) } else { None };
        let (b, worker) = Buffer::pair(Svc { w: wd.clone(), fail_at, gated: c.gated }, c.bound);
        let mut bodies: Vec<(&str, mc_rt::Body)> = vec![];
        for (i, s) in c.clients.iter().enumerate() {
            let (b, c, wd, s) = (b.clone(), c.clone(), wd.clone(), s.clone());
            bodies.push((["C1", "C2", "C3"][i], Box::new(move || client(&c, &wd, b, &s))));
        }
        drop(b);
        {
            let (c, wd) = (c.clone(), wd.clone());
            bodies.push((
                "worker",
                Box::new(move || {
                    let mut worker = Box::pin(worker);
                    let t = Task::new();
                    let mut n = 0;
                    loop {
                        if c.fate == Fate::Drop(n) {
                            obs!("worker dropped");
                            drop(worker);
                            break;
                        }
                        t.wait("work");
                        n += 1;
                        if t.poll(worker.as_mut()).is_ready() {
                            obs!("worker ended");
                            break;
                        }
                    }
                    mc_rt::point("worker over");
                    w(&wd).ended = true;
                }),
            ));
        }
        if c.gated {
            let wd = wd.clone();
            bodies.push((
                "env",
                Box::new(move || {
                    mc_rt::point("service becomes ready");
                    let wk = {
                        let mut g = w(&wd);
                        g.ready = true;
                        g.waker.take()
                    };
                    obs!("service ready");
                    if let Some(wk) = wk {
                        wk.wake()
                    }
                }),
            ));
        }
        mc_rt::threads(bodies);
        let g = w(&wd);
        // requests reach the service in the order they were sent
        for (i, a) in g.dispatched.iter().enumerate() {
            for b in &g.dispatched[i + 1..] {
                let ca = g.calls.iter().find(|x| x.0 == a.0).map(|x| x.1).unwrap_or(0);
                let cb = g.calls.iter().find(|x| x.0 == b.0).map(|x| x.2).unwrap_or(u64::MAX);
                check!(ca < cb, "request {} was sent after request {} but is dispatched before it", a.0, b.0);
            }
        }
    })
}
fn programs(two: bool) -> Vec<Vec<Vec<Step>>> {
    use Step::*;
    let mut v = vec![
        vec![vec![Call(1), Call(2)]],
        vec![vec![Call(1)], vec![Call(2)]],
        vec![vec![Send(1), Send(2)], vec![Call(3)]],
        vec![vec![Cancel(1), Call(2)], vec![Call(3)]],
        vec![vec![Reserve], vec![Call(1), Call(2)]],
    ];
    if two {
        v.push(vec![vec![Send(1), Send(2)], vec![Send(3), Send(4)]]);
        v.push(vec![vec![Call(1)], vec![Call(2)], vec![Call(3)]]);
        v.push(vec![vec![Send(1), Cancel(2)], vec![Call(3)], vec![Reserve]]);
    }
    v
}
fn confs(fates: &[Fate], bounds: &[usize], gated: &[bool], big: bool) -> Vec<Conf> {
    let mut v = vec![];
    for &fate in fates {
        for &bound in bounds {
            for &gated in gated {
                for clients in programs(big) {
                    v.push(Conf { bound, fate, gated, clients });
                }
            }
        }
    }
    v
}
const ASSUME: &[&str] = &[
    "threads interleave at operations on tower's own locks and atomics and at whole channel operations; the insides of tokio's channels are trusted",
    "sequentially consistent memory",
];
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        scenarios: |t| {
            vec![
                scenario("threads: clients against the worker".into(), t.pick(2, 3), confs(&[Fate::Serve], &[1, 2], &[false], true)),
                scenario("threads: the service becomes ready on another thread".into(), t.pick(2, 3), confs(&[Fate::Serve], &[1], &[true], false)),
            ]
        },
        assumptions: ASSUME,
    }
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        scenarios: |t| {
            vec![
                scenario(
                    "threads: the service fails".into(),
                    t.pick(3, 4),
                    confs(&[Fate::Fail(1), Fate::Fail(2)], &[1, 2], &[false], t.pick(false, true)),
                ),
                scenario(
                    "threads: the worker is dropped".into(),
                    t.pick(3, 4),
                    confs(&[Fate::Drop(0), Fate::Drop(1), Fate::Drop(2)], &[1, 2], &[false], t.pick(false, true)),
                ),
                scenario(
                    "threads: failure while the service is awaited".into(),
                    t.pick(2, 3),
                    confs(&[Fate::Fail(2), Fate::Drop(1)], &[1], &[true], false),
                ),
            ]
        },
        assumptions: ASSUME,
    }
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        scenarios: |t| vec![scenario("threads: slots go round".into(), t.pick(2, 3), confs(&[Fate::Serve], &[1], &[false, true], true))],
        assumptions: ASSUME,
    }
}
