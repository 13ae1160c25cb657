//! C29 under thread interleavings: mock clones and their controller on threads of their own.
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, obs, Task};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tower_service::Service;
use tower_test::mock::{self, Handle, Mock};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ctl {
    Allow(u64),
    SendError,
    /// receive a request and answer it
    Serve,
    /// receive a request and fail it
    Refuse,
    /// receive a request and drop it
    Ignore,
}
#[derive(Clone, Debug)]
struct Conf {
    initial: Option<u64>,
    /// calls that each client makes, one after the other
    clients: Vec<Vec<u32>>,
    ctl: Vec<Ctl>,
    /// the controller goes away at the end (else it first serves all that comes)
    leaves: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum Got {
    Value(u32),
    Error(String),
    Closed,
    Injected,
    NotReadyClosed,
}
#[derive(Default)]
struct World {
    got: Vec<(u32, Got)>,
    calls: Vec<(u32, u64, u64)>,
    answers: Vec<(u32, Got)>,
    received: Vec<u32>,
    injected_seen: usize,
    left: bool,
}
type W = Arc<Mutex<World>>;
fn w(x: &W) -> std::sync::MutexGuard<'_, World> {
    x.lock().unwrap_or_else(|e| e.into_inner())
}
fn closed(e: &tower_test_error) -> bool {
    e.is::<mock::error::Closed>()
}
#[allow(non_camel_case_types)]
type tower_test_error = Box<dyn std::error::Error + Send + Sync>;

fn client(mut m: Mock<u32, u32>, wd: W, calls: &[u32]) {
    for &r in calls {
        let left = w(&wd).left;
        let mut injected = 0;
        let rd = loop {
            let t = Task::new();
            let rd = loop {
                t.wait("readiness");
                if let Poll::Ready(r) = t.poll_fn(|cx| m.poll_ready(cx)) {
                    break r;
                }
            };
            match rd {
                Err(e) if !closed(&e) => {
                    check!(e.to_string() == "injected", "readiness fails with {e}");
                    obs!("readiness: injected error");
                    injected += 1;
                    w(&wd).injected_seen += 1;
                    check!(injected < 3, "an injected error is reported again and again");
                }
                r => break r,
            }
        };
        let g = match rd {
            Err(_) => Got::NotReadyClosed,
            Ok(()) => {
                check!(!left, "a mock is ready although its controller had gone");
                let t0 = mc_rt::now();
                let f = m.call(r);
                let t1 = mc_rt::now();
                w(&wd).calls.push((r, t0, t1));
                match mc_rt::block_on("its response", f) {
                    Ok(v) => Got::Value(v),
                    Err(e) if closed(&e) => Got::Closed,
                    Err(e) => Got::Error(e.to_string()),
                }
            }
        };
        obs!("{r} -> {g:?}");
        w(&wd).got.push((r, g));
    }
}
fn controller(mut h: Handle<u32, u32>, wd: W, c: &Conf) {
    let total: usize = c.clients.iter().map(|x| x.len()).sum();
    let mut n = 0;
    let mut rest = if c.leaves { vec![] } else { vec![Ctl::Allow(u64::MAX)] };
    let serve = |h: &mut Handle<u32, u32>, k: Ctl| {
        let r = mc_rt::block_on("a request", h.next_request());
        let Some((r, resp)) = r else {
            return;
        };
        w(&wd).received.push(r);
        obs!("received {r}");
        let a = match k {
            Ctl::Serve => Got::Value(r * 10),
            Ctl::Refuse => Got::Error(format!("refused {r}")),
            _ => Got::Closed,
        };
        w(&wd).answers.push((r, a));
        match k {
            Ctl::Serve => resp.send_response(r * 10),
            Ctl::Refuse => resp.send_error(format!("refused {r}")),
            _ => drop(resp),
        }
    };
    let mut ctl = c.ctl.clone();
    ctl.append(&mut rest);
    for k in ctl {
        match k {
            Ctl::Allow(k) => {
                h.allow(k);
                obs!("allow {k}");
            }
            Ctl::SendError => {
                h.send_error("injected");
                obs!("error injected");
            }
            k => {
                serve(&mut h, k);
                n += 1;
            }
        }
    }
    if !c.leaves {
        while n < total {
            serve(&mut h, Ctl::Serve);
            n += 1;
        }
    }
    drop(h);
    mc_rt::point("controller gone");
    w(&wd).left = true;
    obs!("controller gone");
}
fn scenario(name: &str, dev: u32, confs: Vec<Conf>) -> Scenario {
    Scenario::new(name, dev, move || {
        let c = &confs[choose(confs.len(), "configuration")];
        obs!("{c:?}");
        let wd: W = Default::default();
        let (m, mut h) = mock::pair::<u32, u32>();
        if let Some(n) = c.initial {
            h.allow(n);
        }
        let mut bodies: Vec<(&str, mc_rt::Body)> = vec![];
        for (i, l) in c.clients.iter().enumerate() {
            let (m, wd, l) = (m.clone(), wd.clone(), l.clone());
            bodies.push((["C1", "C2", "C3"][i], Box::new(move || client(m, wd, &l))));
        }
        drop(m);
        let (c2, wd2) = (c.clone(), wd.clone());
        bodies.push(("controller", Box::new(move || controller(h, wd2, &c2))));
        mc_rt::threads(bodies);
        let g = w(&wd);
        for (i, r) in g.received.iter().enumerate() {
            check!(g.received.iter().filter(|x| *x == r).count() == 1, "request {r} is delivered twice");
            for q in &g.received[i + 1..] {
                let (a, b) = (g.calls.iter().find(|x| x.0 == *r), g.calls.iter().find(|x| x.0 == *q));
                if let (Some(a), Some(b)) = (a, b) {
                    check!(a.1 < b.2, "request {r} is delivered before {q}, which was called earlier");
                }
            }
        }
        for (r, got) in &g.got {
            match g.answers.iter().find(|a| a.0 == *r) {
                Some(a) => check!(a.1 == *got, "request {r} was answered {:?} but its caller got {got:?}", a.1),
                None => check!(
                    matches!(got, Got::Closed | Got::NotReadyClosed) && c.leaves,
                    "request {r} was never answered but its caller got {got:?}"
                ),
            }
        }
        let inj = c.ctl.iter().filter(|k| **k == Ctl::SendError).count();
        check!(g.injected_seen <= inj, "{} injected errors, {} reported", inj, g.injected_seen);
        check!(c.leaves || g.injected_seen >= inj.min(1) || !g.got.is_empty(), "an injected error is not reported");
    })
}
pub fn c29() -> Prop {
    use Ctl::*;
    Prop {
        id: "C29",
        scenarios: |t| {
            let mk = |initial, clients: &[&[u32]], ctl: &[Ctl], leaves| Conf {
                initial,
                clients: clients.iter().map(|c| c.to_vec()).collect(),
                ctl: ctl.to_vec(),
                leaves,
            };
            let mut serve = vec![];
            let mut leave = vec![];
            for cl in [&[&[1u32, 2][..]][..], &[&[1][..], &[2][..]][..]] {
                serve.push(mk(None, cl, &[], false));
                serve.push(mk(Some(0), cl, &[Allow(1)], false));
                serve.push(mk(Some(0), cl, &[Allow(2), Serve, Refuse], false));
                serve.push(mk(Some(0), cl, &[SendError], false));
                serve.push(mk(Some(0), cl, &[SendError, Allow(1), SendError], false));
                serve.push(mk(Some(2), cl, &[Ignore, Refuse], false));
                leave.push(mk(None, cl, &[], true));
                leave.push(mk(Some(0), cl, &[], true));
                leave.push(mk(Some(0), cl, &[Allow(1)], true));
                leave.push(mk(Some(0), cl, &[SendError], true));
                leave.push(mk(Some(0), cl, &[Allow(1), Serve], true));
            }
            // a controller which waits for a request that is never made would wait for ever
            leave.retain(|c| !(c.clients.len() == 2 && c.ctl.contains(&Serve)));
            vec![
                scenario("threads: clones against a controller that serves all", t.pick(3, 5), serve),
                scenario("threads: clones against a controller that leaves", t.pick(3, 5), leave),
            ]
        },
        assumptions: &["threads interleave at operations on the mock's locks and at whole channel operations"],
    }
}
