//! C12: concurrent use of one retry budget is linearizable. The sequential specification is the
//! budget itself, used by one thread at a time (what it then does is C11's business).
use crate::core::Scenario;
use crate::Prop;
use mc_rt::{check, choose, obs};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tower::retry::budget::{Budget, TpsBudget};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Deposit,
    Withdraw,
    /// let so many windows pass
    Advance(u32),
}
const WINDOW: Duration = Duration::from_millis(100);

#[derive(Clone, Copy, Debug)]
struct Conf {
    min: u32,
    pct: f32,
    /// deposits and windows to let pass before the threads start
    setup: &'static [Op],
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime")
}
fn advance(d: Duration) {
    // the clock moves on the first poll
    let mut f = Box::pin(tokio::time::advance(d));
    let _ = std::future::Future::poll(f.as_mut(), &mut std::task::Context::from_waker(std::task::Waker::noop()));
}
fn apply(b: &TpsBudget, o: Op) -> bool {
    match o {
        Op::Deposit => {
            b.deposit();
            true
        }
        Op::Withdraw => b.withdraw(),
        Op::Advance(n) => {
            mc_rt::point("clock");
            advance(WINDOW * n);
            true
        }
    }
}
/// How many withdrawals succeed now, and after each further span of windows
fn drain(b: &TpsBudget) -> Vec<u32> {
    let mut v = vec![];
    for (i, w) in [0u32, 1, 4, 4, 1, 1, 11].into_iter().enumerate() {
        if w > 0 {
            advance(WINDOW * w);
        }
        // only take everything at the ends, one in between: the rest is to expire when it should
        let mut n = 0;
        while n < if i == 0 { 0 } else { 40 } && b.withdraw() {
            n += 1;
            if i % 2 == 1 && n == 1 {
                break;
            }
        }
        v.push(n);
    }
    v
}
fn fresh(c: &Conf) -> TpsBudget {
    let b = TpsBudget::new(WINDOW * 10, c.min, c.pct);
    for o in c.setup {
        apply(&b, *o);
    }
    b
}
type Hist = Vec<(Vec<(usize, usize)>, Vec<bool>, Vec<u32>)>;

/// Every order of the threads' operations, with what the budget answers when used in that order.
fn orders(c: &Conf, ops: &[Vec<Op>]) -> Hist {
    fn rec(at: &mut Vec<usize>, ops: &[Vec<Op>], cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        let mut leaf = true;
        for t in 0..ops.len() {
            if at[t] < ops[t].len() {
                leaf = false;
                cur.push((t, at[t]));
                at[t] += 1;
                rec(at, ops, cur, out);
                at[t] -= 1;
                cur.pop();
            }
        }
        if leaf {
            out.push(cur.clone());
        }
    }
    let mut all = vec![];
    rec(&mut vec![0; ops.len()], ops, &mut vec![], &mut all);
    all.into_iter()
        .map(|o| {
            let rt = rt();
            let _g = rt.enter();
            let b = fresh(c);
            let r: Vec<bool> = o.iter().map(|&(t, k)| apply(&b, ops[t][k])).collect();
            let d = drain(&b);
            (o, r, d)
        })
        .collect()
}

fn scenario(name: String, bound: u32, c: Conf, programs: Vec<Vec<Vec<Op>>>) -> Scenario {
    let cache: Arc<Mutex<HashMap<usize, Arc<Hist>>>> = Default::default();
    Scenario::new(name, bound, move || {
        let p = choose(programs.len(), "program");
        let ops = &programs[p];
        let spec = {
            let mut g = cache.lock().unwrap_or_else(|e| e.into_inner());
            match g.get(&p) {
                Some(x) => x.clone(),
                None => {
                    let x = std::thread::scope(|s| s.spawn(|| Arc::new(orders(&c, ops))).join().expect("sequential run"));
                    g.insert(p, x.clone());
                    x
                }
            }
        };
        let rt = rt();
        let h = rt.handle().clone();
        let _e = h.enter();
        let b = Arc::new(fresh(&c));
        let log: Arc<Mutex<Vec<(usize, usize, u64, u64, bool)>>> = Default::default();
        let names = ["T1", "T2", "T3", "T4"];
        let bodies = ops
            .iter()
            .enumerate()
            .map(|(t, l)| {
                let (b, l, log, h) = (b.clone(), l.clone(), log.clone(), h.clone());
                let f: mc_rt::Body = Box::new(move || {
                    let _e = h.enter();
                    for (k, o) in l.into_iter().enumerate() {
                        let s = mc_rt::now();
                        let r = apply(&b, o);
                        let e = mc_rt::now();
                        obs!("{o:?} -> {r}");
                        log.lock().unwrap_or_else(|e| e.into_inner()).push((t, k, s, e, r));
                    }
                });
                (names[t], f)
            })
            .collect();
        mc_rt::threads(bodies);
        let log = log.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let d = drain(&b);
        obs!("afterwards {d:?}");
        let get = |t: usize, k: usize| *log.iter().find(|x| x.0 == t && x.1 == k).expect("logged");
        let ok = spec.iter().any(|(o, r, dd)| {
            *dd == d
                && o.iter().zip(r).all(|(&(t, k), r)| get(t, k).4 == *r)
                && (0..o.len()).all(|i| (i + 1..o.len()).all(|j| get(o[j].0, o[j].1).3 > get(o[i].0, o[i].1).2))
        });
        let h: Vec<String> = log.iter().map(|(t, k, s, e, r)| format!("T{}:{:?}[{s}..{e}]={r}", t + 1, ops[*t][*k])).collect();
        check!(
            ok,
            "no one-at-a-time order of these operations explains their results: {}; afterwards {d:?} could be withdrawn (setup {:?})",
            h.join(" "),
            c.setup
        );
    })
}
fn seqs(alpha: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<Op>| alpha.iter().map(move |o| [p.clone(), vec![*o]].concat())).collect();
    }
    v
}
/// programs up to exchanging threads with the same shape
fn combos(parts: &[Vec<Vec<Op>>]) -> Vec<Vec<Vec<Op>>> {
    let mut v: Vec<Vec<Vec<Op>>> = vec![vec![]];
    for p in parts {
        v = v.into_iter().flat_map(|x| p.iter().map(move |o| [x.clone(), vec![o.clone()]].concat())).collect();
    }
    let key = |x: &Vec<Vec<Op>>| {
        let mut k: Vec<String> = x.iter().map(|o| format!("{o:?}")).collect();
        k.sort();
        k
    };
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(key(x)));
    v
}
use Op::*;
fn confs() -> Vec<(&'static str, Conf)> {
    vec![
        ("empty", Conf { min: 0, pct: 1.0, setup: &[] }),
        ("one token", Conf { min: 0, pct: 1.0, setup: &[Deposit] }),
        ("reserve of one", Conf { min: 1, pct: 0.0, setup: &[] }),
        ("one token, slot due", Conf { min: 0, pct: 1.0, setup: &[Deposit, Advance(1)] }),
        ("two tokens in two slots, slot due", Conf { min: 0, pct: 1.0, setup: &[Deposit, Advance(1), Deposit, Advance(1)] }),
        ("one token about to lapse, one fresh", Conf { min: 0, pct: 1.0, setup: &[Deposit, Advance(9), Deposit, Advance(1)] }),
        ("overdrawn reserve lapsing", Conf { min: 1, pct: 1.0, setup: &[Withdraw, Deposit, Advance(10)] }),
    ]
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        scenarios: |t| {
            let mut v = vec![];
            let dw = [Deposit, Withdraw];
            for (n, c) in confs() {
                v.push(scenario(
                    format!("two threads of two operations, {n}"),
                    t.pick(4, 6),
                    c,
                    combos(&[seqs(&dw, 2), seqs(&dw, 2)]),
                ));
                v.push(scenario(
                    format!("three threads, {n}"),
                    t.pick(3, 5),
                    c,
                    combos(&[seqs(&dw, 1), seqs(&dw, 1), seqs(&dw, t.pick(1, 2))]),
                ));
                v.push(scenario(
                    format!("two threads while time passes, {n}"),
                    t.pick(3, 5),
                    c,
                    combos(&[seqs(&dw, 1), seqs(&dw, t.pick(1, 2)), vec![vec![Advance(1)], vec![Advance(10)], vec![Advance(1), Advance(9)]]]),
                ));
            }
            v
        },
        assumptions: &[
            "threads interleave at operations on locks and atomics (sequentially consistent; every atomic in the budget uses SeqCst)",
            "the time source is the paused tokio clock, advanced by a thread of its own",
        ],
    }
}
