//! ReadyCache (C16) and Balance (C17, C18).
use crate::core::{choose, deviate, Scenario};
use crate::drive::{Handle, Resp, H};
use crate::env::{self, Cfg, EnvErr, EnvFut, EnvSvc, Rd, O, R};
use crate::sched::Flag;
use crate::{check, fail, obs, Prop, Tier};
use futures_core::Stream;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::load::Load;
use tower::ready_cache::ReadyCache;
use tower::util::rng::Rng;
use tower::Service;

pub const C16: Prop = Prop { id: "C16", scenarios: c16, assumptions: &["single-threaded use of one cache; evicted or replaced pending services may be released only by the next poll"] };
pub const C17: Prop = Prop { id: "C17", scenarios: c17, assumptions: &["random draws enumerated by residue; an endpoint superseded before ever becoming ready may or may not be used"] };
pub const C18: Prop = Prop { id: "C18", scenarios: c18, assumptions: &["draws are enumerated over n(n-1) values spread evenly over u64 (every residue and every range cell equally often), up to four draws per selection"] };

// ------------------------------------------------------------------------------------------ C16

fn c16(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (keys, depth, dev, errs) in t.pick(
        vec![(1u8, 9, 2, true), (2, 7, 1, true), (2, 8, 0, false), (3, 6, 1, false)],
        vec![(1, 12, 2, true), (2, 8, 2, true), (2, 10, 0, false), (3, 8, 0, true), (3, 8, 1, false)],
    ) {
        v.push(Scenario::new(format!("keys={keys} depth={depth} errors={errs}"), dev, move || c16_ops(keys, 0, depth, errs)));
    }
    // more services, from every state their first readiness answers lead to
    for (keys, depth, errs) in t.pick(vec![(4u8, 3, true), (5, 2, true), (6, 1, true), (5, 3, false), (7, 2, false)], vec![(4, 4, true), (5, 3, true), (6, 2, true), (5, 4, false), (7, 3, false)]) {
        v.push(Scenario::new(format!("keys={keys} all present, depth={depth} errors={errs}"), 0, move || c16_ops(keys, keys, depth, errs)));
    }
    v
}

const WITH_ERR: Cfg = Cfg { ready: &[R::Ready, R::Pend, R::Err], wake: &[R::Ready, R::Err], call: &[O::Ok], fin: &[O::Ok], revoke: true, ..env::ALWAYS };
const NO_ERR: Cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], ..WITH_ERR };

struct Cache {
    c: ReadyCache<u8, EnvSvc, u32>,
    pending: BTreeMap<u8, usize>,
    ready: BTreeMap<u8, usize>,
    /// evicted or replaced while pending: may still be released by the next poll
    zombies: Vec<usize>,
    /// gone for good
    gone: Vec<usize>,
    flag: Arc<Flag>,
    waker: Waker,
    /// the last poll returned pending and nothing was pushed since
    waiting: bool,
    calls: u32,
}

impl Cache {
    fn st(s: usize) -> (Rd, Rd) {
        env::w(|w| (w.svcs[s].state, w.svcs[s].seen))
    }
    fn audit(&mut self) {
        let rl = self.c.ready_len();
        check!(rl == self.ready.len(), "ready_len {rl}, expected {}", self.ready.len());
        let mut by_index = vec![];
        for i in 0..rl {
            let (k, s) = match self.c.get_ready_index(i) {
                Some((k, s)) => (*k, s.id),
                None => fail!("no service at ready index {i} of {rl}"),
            };
            by_index.push((k, s));
            let m = self.c.get_ready_index_mut(i).map(|(k, s)| (*k, s.id));
            check!(m == Some((k, s)), "lookups at index {i} disagree: {m:?} and {:?}", (k, s));
            let g = self.c.get_ready(&k).map(|(i, k, s)| (i, *k, s.id));
            check!(g == Some((i, k, s)), "lookup by key {k} gives {g:?}, by index {i} gives {s}");
            let g = self.c.get_ready_mut(&k).map(|(i, k, s)| (i, *k, s.id));
            check!(g == Some((i, k, s)), "mutable lookup by key {k} gives {g:?}, by index {i} gives {s}");
        }
        check!(self.c.get_ready_index(rl).is_none() && self.c.get_ready_index_mut(rl).is_none(), "a service beyond the last ready index");
        let it: Vec<_> = self.c.iter_ready().map(|(k, s)| (*k, s.id)).collect();
        let itm: Vec<_> = self.c.iter_ready_mut().map(|(k, s)| (*k, s.id)).collect();
        check!(it == by_index && itm == by_index, "iteration {it:?} / {itm:?} differs from indices {by_index:?}");
        let mut a = by_index.clone();
        a.sort();
        let b: Vec<_> = self.ready.iter().map(|(k, s)| (*k, *s)).collect();
        check!(a == b, "ready set (key, service) is {a:?}, expected {b:?}");
        for k in 0..9u8 {
            check!(self.c.pending_contains(&k) == self.pending.contains_key(&k), "pending_contains({k}) is {}", self.c.pending_contains(&k));
            if !self.ready.contains_key(&k) {
                check!(self.c.get_ready(&k).is_none() && self.c.get_ready_mut(&k).is_none(), "lookup of a key that is not ready succeeded");
            }
        }
        let p = self.c.pending_len();
        self.zombies.retain(|z| !env::w(|w| w.svcs[*z].dropped));
        check!(p >= self.pending.len() && p <= self.pending.len() + self.zombies.len(), "pending_len {p}, expected {} (+{} not yet released)", self.pending.len(), self.zombies.len());
        check!(self.c.len() == rl + p, "len {} with {rl} ready and {p} pending", self.c.len());
        check!(self.c.is_empty() == (rl + p == 0), "is_empty is wrong");
        for s in self.pending.values().chain(self.ready.values()) {
            check!(!env::w(|w| w.svcs[*s].dropped), "live service {s} was dropped");
        }
        for s in &self.gone {
            check!(env::w(|w| w.svcs[*s].dropped), "service {s} is neither ready nor pending any more but was not dropped");
        }
        if self.waiting && !self.flag.is() {
            for (k, s) in &self.pending {
                let (st, seen) = Self::st(*s);
                check!(st == seen, "the polling task was not woken when pending service {s} of key {k} became {st:?}");
            }
        }
    }
    fn replace_pending(&mut self, k: u8, s: usize) {
        if let Some(old) = self.pending.insert(k, s) {
            self.zombies.push(old);
        }
    }
    fn poll(&mut self) {
        self.flag.clear();
        let before = self.pending.clone();
        let r = self.c.poll_pending(&mut Context::from_waker(&self.waker));
        let woken = self.flag.is();
        obs!("  -> {r:?}");
        self.waiting = false;
        let mut failed = None;
        if let Poll::Ready(Err(f)) = &r {
            let k = f.0;
            let s = match before.get(&k) {
                Some(s) => *s,
                None => fail!("failure reported for key {k}, which has no pending service"),
            };
            check!(Self::st(s).1 == Rd::Failed(s as u32), "failure reported for service {s} which did not fail");
            let e = f.1.downcast_ref::<EnvErr>();
            check!(e == Some(&EnvErr { ready: true, of: s }), "failure of service {s} reported with another error: {e:?}");
            self.pending.remove(&k);
            self.gone.push(s);
            failed = Some(k);
        }
        for (k, s) in before {
            if failed == Some(k) {
                continue;
            }
            let (_, seen) = Self::st(s);
            if self.c.pending_contains(&k) {
                check!(!matches!(seen, Rd::Ready | Rd::Failed(_)), "service {s} of key {k} answered {seen:?} but is still pending");
                match &r {
                    Poll::Ready(Ok(())) => fail!("polling reported completion although service {s} of key {k} is pending"),
                    Poll::Pending if !woken => check!(seen == Rd::Pending, "polling returned pending without asking service {s} of key {k}"),
                    _ => {}
                }
            } else {
                check!(seen == Rd::Ready, "pending service {s} of key {k} vanished; its last answer was {seen:?}");
                self.pending.remove(&k);
                if let Some(old) = self.ready.insert(k, s) {
                    self.gone.push(old);
                }
            }
        }
        if !matches!(r, Poll::Ready(Err(_))) && !woken {
            self.gone.append(&mut self.zombies);
        }
        if matches!(r, Poll::Pending) {
            check!(woken || !self.pending.is_empty(), "polling returned pending although nothing is pending");
            self.waiting = true;
        }
    }
    fn check_ready(&mut self, k: u8, by_index: bool) -> bool {
        let w = self.waker.clone();
        let cx = &mut Context::from_waker(&w);
        let s = self.ready.get(&k).copied();
        let polls = s.map(|s| env::w(|w| w.svcs[s].polls));
        let r = if by_index {
            let i = self.c.get_ready(&k).map(|x| x.0).unwrap_or(self.c.ready_len());
            self.c.check_ready_index(cx, i)
        } else {
            self.c.check_ready(cx, &k)
        };
        obs!("  -> {:?}", r.as_ref().map_err(|f| f.0));
        let s = match s {
            None => {
                check!(matches!(r, Ok(false)), "check_ready({k}) of a key that is not ready gave {:?}", r.map_err(|f| f.0));
                return false;
            }
            Some(s) => s,
        };
        check!(env::w(|w| w.svcs[s].polls) > polls.unwrap(), "check_ready({k}) did not ask the service");
        match (r, Self::st(s).1) {
            (Ok(true), Rd::Ready) => true,
            (Ok(false), Rd::Pending) => {
                self.ready.remove(&k);
                if let std::collections::btree_map::Entry::Vacant(e) = self.pending.entry(k) {
                    e.insert(s);
                    self.waiting = false;
                } else {
                    self.gone.push(s);
                }
                false
            }
            (Err(f), Rd::Failed(_)) => {
                check!(f.0 == k && f.1.downcast_ref::<EnvErr>() == Some(&EnvErr { ready: true, of: s }), "failure of service {s} of key {k} reported as {f:?}");
                let cause = std::error::Error::source(&f).and_then(|e| e.downcast_ref::<EnvErr>());
                check!(cause == Some(&EnvErr { ready: true, of: s }), "the failure of service {s} does not give its error as the cause, but {cause:?}");
                self.ready.remove(&k);
                self.gone.push(s);
                false
            }
            (r, st) => fail!("check_ready({k}) gave {:?} when the service answered {st:?}", r.map_err(|f| f.0)),
        }
    }
    fn call(&mut self, k: u8, by_index: bool) {
        let s = self.ready[&k];
        let n = env::n_calls();
        self.calls += 1;
        let req = 70 + self.calls;
        let f: EnvFut = if by_index {
            let i = self.c.get_ready(&k).unwrap().0;
            self.c.call_ready_index(i, req)
        } else {
            self.c.call_ready(&k, req)
        };
        check!(env::n_calls() == n + 1, "one call made {} calls", env::n_calls() - n);
        let (cs, cf) = env::w(|w| w.calls[n]);
        check!(cs == s && cf == f.id && env::w(|w| w.futs[cf].req) == req, "call for key {k} went to service {cs} instead of {s}, or was altered");
        self.ready.remove(&k);
        if let std::collections::btree_map::Entry::Vacant(e) = self.pending.entry(k) {
            e.insert(s);
            self.waiting = false;
        } else {
            self.gone.push(s);
        }
    }
}

async fn c16_ops(keys: u8, pre: u8, depth: usize, errs: bool) {
    let (flag, waker) = Flag::new();
    let mut m = Cache {
        c: ReadyCache::default(),
        pending: BTreeMap::new(),
        ready: BTreeMap::new(),
        zombies: vec![],
        gone: vec![],
        flag,
        waker,
        waiting: false,
        calls: 0,
    };
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Push(u8),
        Poll,
        Check(u8),
        Call(u8),
        Evict(u8),
        /// a service which reported ready turns busy or breaks: the next check will notice
        Turn(usize, Rd),
        Env(env::Act),
    }
    for k in 0..pre {
        let s = env::svc(if errs { WITH_ERR } else { NO_ERR });
        m.pending.insert(k, s.id);
        m.c.push(k, s);
    }
    for _ in 0..pre {
        m.poll();
        m.audit();
        if m.waiting || m.pending.is_empty() {
            break;
        }
    }
    let start = (pre > 0) as usize;
    for step in start..depth + start {
        let mut ops = vec![];
        let used = m.pending.keys().chain(m.ready.keys()).copied().max().map(|k| k + 1).unwrap_or(0);
        for k in 0..keys.min(used + 1) {
            ops.push(Op::Push(k));
        }
        if step > 0 && (!m.waiting || m.flag.is()) {
            ops.push(Op::Poll);
        }
        for k in 0..keys {
            if m.ready.contains_key(&k) {
                ops.push(Op::Check(k));
                ops.push(Op::Call(k));
            }
            if m.ready.contains_key(&k) || m.pending.contains_key(&k) {
                ops.push(Op::Evict(k));
            }
        }
        for a in env::acts() {
            match a {
                env::Act::Wake(i) if m.pending.values().chain(m.ready.values()).any(|s| *s == i) => ops.push(Op::Env(a)),
                _ => {}
            }
        }
        if pre > 0 {
            for s in m.ready.values().copied().filter(|s| Cache::st(*s) == (Rd::Ready, Rd::Ready)) {
                ops.push(Op::Turn(s, Rd::Pending));
                if errs {
                    ops.push(Op::Turn(s, Rd::Failed(s as u32)));
                }
            }
        }
        let mut sp = vec![];
        sp.push(Op::Poll);
        for k in 0..keys {
            if !m.ready.contains_key(&k) {
                sp.push(Op::Check(k));
                if !m.pending.contains_key(&k) {
                    sp.push(Op::Evict(k));
                }
            }
        }
        let d = deviate(sp.len() + 1, "unneeded op");
        let op = if d > 0 { sp[d - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("{op:?}");
        match op {
            Op::Push(k) => {
                let s = env::svc(if errs { WITH_ERR } else { NO_ERR });
                m.replace_pending(k, s.id);
                m.waiting = false;
                m.c.push(k, s);
            }
            Op::Poll => m.poll(),
            Op::Check(k) => {
                m.check_ready(k, step % 2 == 0);
            }
            Op::Call(k) => m.call(k, step % 2 == 1),
            Op::Evict(k) => {
                let want = m.pending.contains_key(&k) || m.ready.contains_key(&k);
                let got = m.c.evict(&k);
                check!(got == want, "evict({k}) returned {got}");
                if let Some(s) = m.pending.remove(&k) {
                    m.zombies.push(s);
                }
                if let Some(s) = m.ready.remove(&k) {
                    m.gone.push(s);
                }
            }
            Op::Turn(s, st) => env::w(|w| w.svcs[s].state = st),
            Op::Env(a) => env::act(a),
        }
        m.audit();
    }
    // drain: everything still pending becomes ready, then the cache must agree once more
    for s in m.pending.values().copied().collect::<Vec<_>>() {
        if env::w(|w| w.svcs[s].state) == Rd::Pending {
            env::wake_svc(s, R::Ready);
        }
    }
    m.audit();
    for _ in 0..2 * (depth + pre as usize) {
        if m.pending.is_empty() && m.zombies.is_empty() {
            break;
        }
        m.poll();
        m.audit();
        for s in m.pending.values().copied().collect::<Vec<_>>() {
            if env::w(|w| w.svcs[s].state) == Rd::Pending {
                env::wake_svc(s, R::Ready);
            }
        }
    }
    check!(m.pending.is_empty() && m.zombies.is_empty(), "services stay pending although all of them became ready");
    let Cache { c, ready, .. } = m;
    drop(c);
    for s in ready.values() {
        check!(env::w(|w| w.svcs[*s].dropped), "dropping the cache leaks service {s}");
    }
}

// ---------------------------------------------------------------------------------- discovery

#[derive(Default)]
pub struct DiscQ {
    pub q: VecDeque<Item>,
    pub waker: Option<Waker>,
    pub ended: bool,
    pub polled_after_end: usize,
    pub polls: usize,
}
#[derive(Debug)]
pub enum Item {
    Ins(u8, EnvSvc),
    Rem(u8),
    Err,
    End,
}
thread_local! { static DQ: RefCell<DiscQ> = RefCell::new(DiscQ::default()); }
pub fn dq<T>(f: impl FnOnce(&mut DiscQ) -> T) -> T {
    DQ.with(|d| f(&mut d.borrow_mut()))
}
pub fn dq_reset() {
    let old = dq(std::mem::take);
    drop(old);
}
pub fn dq_push(i: Item) {
    let w = dq(|d| {
        d.q.push_back(i);
        d.waker.take()
    });
    if let Some(w) = w {
        w.wake()
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct DiscErr;
impl std::fmt::Display for DiscErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "discovery failed")
    }
}
impl std::error::Error for DiscErr {}
/// Endpoint with a load chosen by the scenario (kept in the world's `ext` table by service id).
#[derive(Debug)]
pub struct LSvc(pub EnvSvc);
impl Load for LSvc {
    type Metric = i64;
    fn load(&self) -> i64 {
        env::w(|w| w.ext.get(self.0.id).copied().unwrap_or(0))
    }
}
impl Service<u32> for LSvc {
    type Response = env::Rsp;
    type Error = EnvErr;
    type Future = EnvFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), EnvErr>> {
        self.0.poll_ready_env(cx)
    }
    fn call(&mut self, req: u32) -> EnvFut {
        self.0.call_env(req)
    }
}
pub struct Disc<S>(pub fn(EnvSvc) -> S);
impl<S> Stream for Disc<S> {
    type Item = Result<Change<u8, S>, DiscErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let i = dq(|d| {
            d.polls += 1;
            if d.ended {
                d.polled_after_end += 1;
                fail!("the discovery stream was polled again after it had ended");
            }
            match d.q.pop_front() {
                Some(i) => {
                    d.ended = matches!(i, Item::End);
                    Some(i)
                }
                None => {
                    d.waker = Some(cx.waker().clone());
                    None
                }
            }
        });
        match i {
            None => Poll::Pending,
            Some(Item::Ins(k, s)) => Poll::Ready(Some(Ok(Change::Insert(k, (self.0)(s))))),
            Some(Item::Rem(k)) => Poll::Ready(Some(Ok(Change::Remove(k)))),
            Some(Item::Err) => Poll::Ready(Some(Err(DiscErr))),
            Some(Item::End) => Poll::Ready(None),
        }
    }
}

// ------------------------------------------------------------------------------------------ C17

fn c17(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    // (keys, initial endpoints, depth, dev, errors)
    for (keys, init, depth, dev, errs) in t.pick(
        vec![(2u8, 0u8, 8, 1, false), (1, 1, 8, 2, true), (2, 2, 6, 1, true), (2, 2, 5, 2, true), (3, 3, 5, 1, false), (3, 3, 6, 0, false), (3, 3, 5, 0, true), (5, 5, 4, 0, false), (4, 4, 4, 0, true)],
        vec![(2, 0, 9, 1, true), (1, 1, 10, 2, true), (2, 2, 8, 1, true), (2, 2, 7, 2, true), (3, 3, 7, 1, false), (3, 3, 6, 1, true), (4, 4, 6, 1, false), (5, 5, 5, 0, false), (6, 6, 4, 0, true)],
    ) {
        v.push(Scenario::new(format!("keys={keys} initial={init} depth={depth} failures={errs}"), dev, move || c17_ops(keys, init, depth, errs)));
    }
    let sizes: &'static [usize] = t.pick(&[2, 3, 4, 5, 6, 9, 17, 40, 100, 200], &[2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255]);
    v.push(Scenario::new("crowds: one usable endpoint among up to 200", 0, move || c17_crowd(sizes)));
    v
}

/// Many endpoints at once, only one of which can be used.
async fn c17_crowd(sizes: &'static [usize]) {
    const YES: Cfg = Cfg { ready: &[R::Ready], call: &[O::Ok], quiet: true, ..env::ALWAYS };
    dq_reset();
    let n = sizes[choose(sizes.len(), "endpoints")];
    let one = [0, 1, n / 2, n - 1][choose(4, "the usable one")];
    let kind = choose(6, "the others: pending, failing, both, withdrawn later, failing later, removed later");
    let late = kind < 3 && choose(2, "it becomes ready later") == 1;
    let seed = choose(4, "random numbers") as u64;
    obs!("{n} endpoints, {one} is usable, kind {kind} late {late} seed {seed}");
    let mut ids = vec![];
    for k in 0..n {
        let not = match kind {
            0 => &[R::Pend],
            1 => &[R::Err],
            2 if k % 2 == 0 => &[R::Pend],
            2 => &[R::Err],
            _ => &[R::Ready],
        };
        let s = env::svc(Cfg { ready: if k != one { not } else if late { &[R::Pend] } else { &[R::Ready] }, ..YES });
        ids.push(s.id);
        dq_push(Item::Ins(k as u8, s));
    }
    let the = ids[one];
    let mut h = Handle::new(Balance::from_rng(Disc(LSvc), MixRng(seed)));
    // polls as long as the balancer asks to be polled again
    fn poll(h: &mut Handle<Balance<Disc<LSvc>, u32>>, n: usize) -> bool {
        for _ in 0..4 * n + 16 {
            match h.poll_ready::<u32>() {
                Poll::Ready(Ok(())) => return true,
                Poll::Ready(Err(e)) => fail!("the balancer failed: {e}"),
                Poll::Pending if h.flag.is() => {}
                Poll::Pending => return false,
            }
        }
        fail!("the balancer keeps asking to be polled again")
    }
    let r = poll(&mut h, n);
    check!(r != late, "the balancer is {}ready, with an endpoint which is {}", if r { "" } else { "not " }, if late { "not" } else { "ready" });
    if late {
        env::wake_svc(the, R::Ready);
        check!(h.flag.is(), "the caller was not woken when endpoint {one} of {n} became ready");
        check!(poll(&mut h, n), "the balancer is not ready after endpoint {one} of {n} became ready");
    }
    let call = |h: &mut Handle<_>| {
        let k = env::n_calls();
        let _f = h.call(5);
        env::w(|w| w.calls[k].0)
    };
    let first = call(&mut h);
    if kind < 3 {
        check!(first == the, "the request went to endpoint {first}, only {the} is ready");
        let gone = ids.iter().filter(|s| **s != the && matches!(env::w(|w| w.svcs[**s].seen), Rd::Failed(_))).count();
        check!(h.svc.as_ref().unwrap().len() == n - gone, "{gone} of {n} endpoints failed, the balancer has {}", h.svc.as_ref().unwrap().len());
        return;
    }
    for (k, s) in ids.iter().enumerate().filter(|x| *x.1 != the) {
        match kind {
            3 => env::w(|w| w.svcs[*s].state = Rd::Pending),
            4 => env::w(|w| w.svcs[*s].state = Rd::Failed(*s as u32)),
            _ => dq_push(Item::Rem(k as u8)),
        }
    }
    check!(poll(&mut h, n), "the balancer is not ready although endpoint {one} of {n} is");
    if kind == 5 {
        check!(h.svc.as_ref().unwrap().len() == 1, "the balancer has {} endpoints after all but one were removed", h.svc.as_ref().unwrap().len());
    }
    // readiness may be withdrawn unnoticed after an endpoint was asked; that of `the` is not
    let second = call(&mut h);
    check!(second == the, "the request went to endpoint {second}, only {the} is ready");
}
struct MixRng(u64);
impl Rng for MixRng {
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 ^ (self.0 >> 29)
    }
}

struct ChoiceRng(u64);
impl Rng for ChoiceRng {
    fn next_u64(&mut self) -> u64 {
        deviate(self.0 as usize, "random draw") as u64
    }
}

/// What the balancer must know about one key: its endpoints in the order of insertion.
#[derive(Default, Clone)]
struct Ep {
    chain: Vec<usize>,
    newest: usize,
}

impl Ep {
    fn add(&mut self, s: usize) {
        self.chain.push(s);
        self.newest = s;
    }
}

async fn c17_ops(keys: u8, init: u8, depth: usize, errs: bool) {
    dq_reset();
    let cfg = Cfg { dev: false, revoke: true, call: &[O::Ok, O::Err], ready: if errs { WITH_ERR.ready } else { NO_ERR.ready }, wake: if errs { WITH_ERR.wake } else { NO_ERR.wake }, ..env::ALWAYS };
    let cfg = Cfg { call: if errs { cfg.call } else { &[O::Ok] }, ..cfg };
    let mut eps: BTreeMap<u8, Ep> = BTreeMap::new();
    let mut removed: Vec<usize> = vec![];
    let mut handed: Vec<usize> = vec![];
    // changes sent but not necessarily seen: (change, what)
    let mut sent: VecDeque<(u8, Option<usize>)> = VecDeque::new();
    let mut errors = 0;
    let mut ended = false;
    for k in 0..init {
        let s = env::svc(cfg);
        sent.push_back((k, Some(s.id)));
        dq_push(Item::Ins(k, s));
    }
    let bal = Balance::from_rng(Disc(LSvc), ChoiceRng(keys as u64));
    let mut h = Handle::new(bal);
    let mut resp: Option<Resp<_>> = None;
    let mut reqs = 0u32;
    let mut failed_disc = false;
    // endpoints which would have answered the latest readiness poll with a failure
    let mut broken: Vec<usize> = vec![];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Call,
        Ins(u8),
        Rem(u8),
        /// an endpoint which reported ready breaks: it will fail when polled again
        Break(usize),
        Err,
        End,
        Env(env::Act),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        let mut sp = vec![];
        if h.st == H::Idle || h.st == H::Failed || (h.st == H::Waiting && h.flag.is()) {
            ops.push(Op::Poll);
        } else {
            sp.push(Op::Poll);
        }
        if h.st == H::Ready {
            ops.push(Op::Call);
        }
        if !ended {
            let known: Vec<u8> = (0..keys).filter(|k| eps.contains_key(k) || sent.iter().any(|s| s.0 == *k)).collect();
            for k in 0..keys.min(known.len() as u8 + 1) {
                ops.push(Op::Ins(k));
            }
            for k in known {
                ops.push(Op::Rem(k));
            }
            sp.push(Op::Err);
            sp.push(Op::End);
        }
        let live: Vec<usize> = eps.values().flat_map(|e| e.chain.iter().copied()).collect();
        if errs {
            sp.extend(live.iter().filter(|s| Cache::st(**s) == (Rd::Ready, Rd::Ready)).map(|s| Op::Break(*s)));
        }
        ops.extend(env::acts().into_iter().filter(|a| matches!(a, env::Act::Wake(i) if live.contains(i))).map(Op::Env));
        if ops.is_empty() {
            break;
        }
        let d = deviate(sp.len() + 1, "rare op");
        let op = if d > 0 { sp[d - 1] } else { ops[choose(ops.len(), "op")] };
        obs!("{op:?}");
        let waiting = h.st == H::Waiting && !h.flag.is();
        match op {
            Op::Ins(k) => {
                let s = env::svc(cfg);
                sent.push_back((k, Some(s.id)));
                dq_push(Item::Ins(k, s));
            }
            Op::Rem(k) => {
                sent.push_back((k, None));
                dq_push(Item::Rem(k));
            }
            Op::Err => {
                errors += 1;
                sent.push_back((255, None));
                dq_push(Item::Err);
            }
            Op::End => {
                ended = true;
                dq_push(Item::End);
            }
            Op::Env(a) => env::act(a),
            Op::Break(s) => env::w(|w| w.svcs[s].state = Rd::Failed(s as u32)),
            Op::Poll => {
                let n = env::n_calls();
                broken = live.iter().copied().filter(|s| matches!(Cache::st(*s).0, Rd::Failed(_))).collect();
                let r = h.poll_ready::<u32>();
                let woken = h.flag.is();
                check!(env::n_calls() == n, "a readiness poll called an endpoint");
                // apply the changes which the balancer has taken from the stream
                let left = dq(|d| d.q.iter().filter(|i| !matches!(i, Item::End)).count());
                let mut err_seen = false;
                while sent.len() > left {
                    let (k, s) = sent.pop_front().unwrap();
                    match s {
                        _ if k == 255 => err_seen = true,
                        Some(s) => {
                            handed.push(s);
                            eps.entry(k).or_default().add(s);
                        }
                        None => {
                            if let Some(e) = eps.remove(&k) {
                                removed.extend(e.chain);
                            }
                        }
                    }
                }
                // failed endpoints leave, ready successors supersede
                for e in eps.values_mut() {
                    let (gone, mut rest): (Vec<usize>, Vec<usize>) = e.chain.iter().copied().partition(|s| matches!(Cache::st(*s).1, Rd::Failed(_)));
                    removed.extend(gone);
                    if let Some(p) = rest.iter().rposition(|s| env::w(|w| w.svcs[*s].ever_ready)) {
                        removed.extend(rest.drain(..p));
                    }
                    e.chain = rest;
                }
                eps.retain(|_, e| !e.chain.is_empty());
                match &r {
                    Poll::Ready(Err(e)) => {
                        check!(err_seen, "the balancer failed although discovery did not: {e}");
                        let mut src: Option<&(dyn std::error::Error + 'static)> = Some(&**e);
                        let mut found = false;
                        while let Some(x) = src {
                            found |= x.is::<DiscErr>();
                            src = x.source();
                        }
                        check!(found, "the discovery error was replaced by {e:?}");
                        failed_disc = true;
                    }
                    _ => check!(!err_seen, "a discovery error was swallowed: {r:?}"),
                }
                if !matches!(r, Poll::Ready(Err(_))) {
                    check!(woken || (left == 0 && (!ended || dq(|d| d.ended))), "{left} discovery changes were left unread");
                }
                let must: Vec<usize> = must_serve(&eps);
                match &r {
                    Poll::Ready(Ok(())) => {
                        let ok = eps.values().flat_map(|e| e.chain.iter()).any(|s| Cache::st(*s) == (Rd::Ready, Rd::Ready));
                        check!(ok, "the balancer is ready although no live endpoint is");
                    }
                    Poll::Pending => {
                        for s in &must {
                            let (st, seen) = Cache::st(*s);
                            check!(woken || seen == Rd::Pending && st == Rd::Pending, "the balancer waits although endpoint {s} is {st:?} (last answer {seen:?})");
                        }
                    }
                    _ => {}
                }
                if !woken && !matches!(r, Poll::Ready(Err(_))) {
                    for s in &handed {
                        let (seen, dropped) = env::w(|w| (w.svcs[*s].seen, w.svcs[*s].dropped));
                        if matches!(seen, Rd::Failed(_)) {
                            check!(dropped, "failed endpoint {s} is kept");
                        }
                    }
                    let alive = handed.iter().filter(|s| !env::w(|w| w.svcs[**s].dropped)).count();
                    let b = h.svc.as_ref().unwrap();
                    check!(b.len() == alive && b.is_empty() == (alive == 0), "the balancer says it has {} endpoints, it holds {alive}", b.len());
                }
                obs!("  -> {:?}", r.map(|r| r.map_err(|e| e.to_string())));
            }
            Op::Call => {
                reqs += 1;
                let n = env::n_calls();
                let mut f = h.call(reqs);
                check!(env::n_calls() == n + 1, "one request was dispatched {} times", env::n_calls() - n);
                let (s, fid) = env::w(|w| w.calls[n]);
                check!(env::w(|w| w.futs[fid].req) == reqs, "request altered");
                check!(eps.values().any(|e| e.chain.contains(&s)), "request {reqs} was sent to endpoint {s}, which was removed, replaced or failed");
                check!(!broken.contains(&s), "request {reqs} was sent to endpoint {s}, which had failed before the readiness poll for this request");
                f.poll();
                let got = f.out.as_ref().map(|o| o.as_ref().map(|r| *r).map_err(|e| e.downcast_ref::<EnvErr>().copied()));
                let want = env::expected(fid).map(|r| r.map_err(Some));
                check!(got == want.as_ref().map(|r| r.as_ref().map(|x| *x).map_err(|e| *e)), "response {got:?}, expected {want:?}");
                resp = Some(f);
            }
        }
        if waiting && !h.flag.is() && !matches!(op, Op::Poll) {
            check!(!matches!(op, Op::Ins(_) | Op::Rem(_) | Op::Err), "the waiting caller was not woken for a discovery change");
            if let Op::Env(env::Act::Wake(s)) = op {
                check!(!must_serve(&eps).contains(&s), "the waiting caller was not woken when endpoint {s} became {:?}", Cache::st(s).0);
            }
        }
    }
    let _ = (resp, errors, failed_disc);
    // in the end: settle everything and see that the balancer is ready iff an endpoint is
    for _ in 0..4 * depth {
        for s in must_serve(&eps) {
            if Cache::st(s).0 == Rd::Pending {
                env::wake_svc(s, R::Ready);
            }
        }
        let r = h.poll_ready::<u32>();
        match r {
            Poll::Ready(Ok(())) => {
                let n = env::n_calls();
                let _ = h.call(999);
                let (s, _) = env::w(|w| w.calls[n]);
                check!(!removed.contains(&s), "request sent to endpoint {s}, which was removed, replaced or failed");
                return;
            }
            Poll::Ready(Err(_)) => {}
            Poll::Pending => {
                if !h.flag.is() && must_serve(&eps).iter().all(|s| Cache::st(*s).0 == Cache::st(*s).1) {
                    return;
                }
            }
        }
        // keep the reference in step
        let left = dq(|d| d.q.iter().filter(|i| !matches!(i, Item::End)).count());
        while sent.len() > left {
            let (k, s) = sent.pop_front().unwrap();
            match s {
                _ if k == 255 => {}
                Some(s) => eps.entry(k).or_default().add(s),
                None => {
                    if let Some(e) = eps.remove(&k) {
                        removed.extend(e.chain);
                    }
                }
            }
        }
        for e in eps.values_mut() {
            e.chain.retain(|s| !matches!(Cache::st(*s).1, Rd::Failed(_)));
        }
        eps.retain(|_, e| !e.chain.is_empty());
    }
    fail!("the balancer neither becomes ready nor rests");
}

/// Endpoints that have to be used when ready: the newest of each key, and an earlier one that is
/// still known ready.
fn must_serve(eps: &BTreeMap<u8, Ep>) -> Vec<usize> {
    let mut v = vec![];
    for e in eps.values() {
        for s in &e.chain {
            if *s == e.newest || Cache::st(*s).1 == Rd::Ready {
                v.push(*s);
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ C18

fn c18(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for n in 1..=t.pick(6usize, 8) {
        v.push(Scenario::new(format!("endpoints={n}"), 0, move || c18_dist(n)));
    }
    for n in t.pick(vec![9usize, 13, 16, 28], vec![9, 10, 11, 12, 13, 16, 20, 40]) {
        v.push(Scenario::new(format!("endpoints={n}, distinct loads"), 0, move || c18_dist(n)));
    }
    for (n, depth) in t.pick(vec![(2usize, 6usize), (3, 5)], vec![(2, 8), (3, 6), (4, 5)]) {
        v.push(Scenario::new(format!("histories, endpoints={n} depth={depth}"), 0, move || c18_hist(n, depth)));
    }
    v
}
struct ChooseRng(u64);
impl Rng for ChooseRng {
    fn next_u64(&mut self) -> u64 {
        spread(self.0)[choose(self.0 as usize, "draw")]
    }
}
/// Selections kept over several readiness polls while endpoints come, go and change their load.
async fn c18_hist(n: usize, depth: usize) {
    dq_reset();
    env::reset();
    // key -> service, for those discovery lists
    let mut live: Vec<(u8, usize)> = vec![];
    let cfg = Cfg { ready: &[R::Ready, R::Pend], wake: &[R::Ready], dev: false, ..env::ALWAYS };
    let rot = choose(n, "rotation");
    for i in 0..n {
        let s = env::svc(env::ALWAYS);
        live.push((i as u8, s.id));
        env::w(|w| w.ext.push(((i + rot) % n) as i64));
        dq_push(Item::Ins(i as u8, s));
    }
    let w = noop();
    let cx = &mut Context::from_waker(&w);
    let mut b = Balance::from_rng(Disc(LSvc), ChooseRng((n * (n - 1)) as u64));
    // what was known at each readiness poll since the last call: (service, load, surely ready)
    let mut polls: Vec<Vec<(usize, i64, bool)>> = vec![];
    let mut ready = false;
    let mut nk = n as u8;
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Poll,
        Call,
        Ins,
        Rem(usize),
        Load(usize),
        Wake(usize),
    }
    let mut again = true;
    for _ in 0..depth {
        let mut ops = vec![];
        // (with more endpoints, polls without anything in between are left out)
        if again || n == 2 {
            ops.push(Op::Poll);
        }
        if ready {
            ops.push(Op::Call);
        }
        if live.len() > 1 {
            ops.extend((0..live.len()).map(Op::Rem));
        }
        if live.len() < n + 1 {
            ops.push(Op::Ins);
        }
        ops.extend((0..live.len()).filter(|i| env::w(|w| w.ext[live[*i].1]) < n as i64).map(Op::Load));
        for a in env::acts() {
            if let env::Act::Wake(i) = a {
                ops.push(Op::Wake(i));
            }
        }
        let op = ops[choose(ops.len(), "op")];
        obs!("{op:?}");
        again = !matches!(op, Op::Poll);
        match op {
            Op::Poll => {
                let r = <Balance<_, _> as Service<u32>>::poll_ready(&mut b, cx);
                ready = matches!(r, Poll::Ready(Ok(())));
                obs!("ready: {ready}");
                polls.push(env::w(|w| live.iter().map(|(_, s)| (*s, w.ext[*s], w.svcs[*s].seen == env::Rd::Ready)).collect()));
            }
            Op::Call => {
                let before = env::n_calls();
                drop(b.call(1));
                check!(env::n_calls() == before + 1, "the call was dispatched {} times", env::n_calls() - before);
                let c = env::w(|w| w.calls[before].0);
                let bad = polls.iter().all(|p| {
                    let Some(me) = p.iter().find(|x| x.0 == c).map(|x| x.1) else { return false };
                    let mut others = p.iter().filter(|x| x.0 != c && x.2);
                    others.clone().next().is_some() && others.all(|x| x.1 < me)
                });
                check!(!bad, "the request went to endpoint {c}, which had the strictly highest load of all ready endpoints at each readiness poll: {polls:?}");
                polls.clear();
                ready = false;
            }
            Op::Ins => {
                let s = env::svc(cfg);
                let l = choose(n, "load") as i64;
                env::w(|w| {
                    w.ext.resize(s.id + 1, 0);
                    w.ext[s.id] = l
                });
                live.push((nk, s.id));
                dq_push(Item::Ins(nk, s));
                nk += 1;
            }
            Op::Rem(i) => {
                let (k, _) = live.remove(i);
                dq_push(Item::Rem(k));
            }
            Op::Load(i) => {
                let s = live[i].1;
                env::w(|w| w.ext[s] = n as i64);
            }
            Op::Wake(i) => env::wake_svc(i, R::Ready),
        }
    }
}

thread_local! {
    static DRAWS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
}
struct ListRng;
impl Rng for ListRng {
    fn next_u64(&mut self) -> u64 {
        DRAWS.with(|d| {
            let mut d = d.borrow_mut();
            d.1 += 1;
            let i = d.1 - 1;
            d.0.get(i).copied().unwrap_or(0)
        })
    }
}

/// `m` values spread evenly over u64, the j-th congruent to j modulo m and in the middle of the j-th cell.
fn spread(m: u64) -> Vec<u64> {
    let cell = ((1u128 << 64) / m as u128) as u64;
    (0..m)
        .map(|j| {
            let mid = (j as u128 * (1u128 << 64) / m as u128) as u64 + cell / 2;
            mid - mid % m + j
        })
        .collect()
}

async fn c18_dist(n: usize) {
    // loads: every assignment of {0,1,2} (n<=4), of {0,1} or a rotation of distinct loads (n>4)
    let loads: Vec<i64> = if n <= 4 {
        (0..n).map(|_| choose(3, "load") as i64).collect()
    } else {
        match choose(if n > 8 { 1 } else { 2 }, "load shape") {
            _ if n > 8 => (0..n as i64).map(|i| (i * 2 + 1) % n as i64).collect(),
            0 => (0..n).map(|_| choose(2, "load") as i64).collect(),
            _ => {
                let r = choose(n, "rotation");
                (0..n).map(|i| ((i + r) % n) as i64).collect()
            }
        }
    };
    // history before the selection: nothing, a removal, or a call (both reorder the endpoints)
    let hist = if n > 10 { 0 } else { choose(1 + n + if n > 1 { n } else { 0 }, "history") };
    let n_now = if hist > n { n - 1 } else { n };
    let vals = if n_now > 1 { spread((n_now * (n_now - 1)) as u64) } else { vec![0, 1, u64::MAX] };
    // all draw sequences, by odometer; weight of a leaf = vals.len()^-(draws used)
    let maxd = 4u32;
    let total: u128 = (vals.len() as u128).pow(maxd);
    let mut mass = vec![0u128; n];
    let mut seq: Vec<usize> = vec![];
    let mut leaves = 0u64;
    let w = noop();
    loop {
        dq_reset();
        env::reset();
        for (i, l) in loads.iter().enumerate() {
            let s = env::svc(env::ALWAYS);
            env::w(|w| w.ext.push(*l));
            dq_push(Item::Ins(i as u8, s));
        }
        let mut b = Balance::from_rng(Disc(LSvc), ListRng);
        let cx = &mut Context::from_waker(&w);
        let mut victim = usize::MAX;
        if hist > 0 {
            // bring every endpoint in, then disturb the order
            DRAWS.with(|d| *d.borrow_mut() = (vec![], 0));
            if hist <= n {
                // make endpoint hist-1 the chosen one by giving it the lowest load for this call
                env::w(|w| {
                    for (i, x) in w.ext.iter_mut().enumerate() {
                        *x = if i == hist - 1 { -1 } else { 5 };
                    }
                });
                ready(&mut b, cx);
                let before = env::n_calls();
                drop(b.call(1));
                check!(env::n_calls() == before + 1, "the call was not dispatched");
                env::w(|w| w.ext = loads.clone());
            } else {
                victim = hist - n - 1;
                // poll so that all are ready and one selection is cached, use it, then remove
                ready(&mut b, cx);
                drop(b.call(1));
                dq_push(Item::Rem(victim as u8));
            }
        }
        DRAWS.with(|d| *d.borrow_mut() = (seq.iter().map(|i| vals[*i]).collect(), 0));
        ready(&mut b, cx);
        let used = DRAWS.with(|d| d.borrow().1);
        if n > 6 && used > 2 {
            // another way to select, too many draws for so many endpoints: left to the smaller scenarios
            return;
        }
        check!(used as u32 <= maxd, "a selection consumed more than {maxd} draws");
        if used > seq.len() {
            // needs more draws: start with the first value for each
            seq.resize(used, 0);
            continue;
        }
        let before = env::n_calls();
        drop(b.call(2));
        check!(env::n_calls() == before + 1, "the call was dispatched {} times", env::n_calls() - before);
        let s = env::w(|w| w.calls[before].0);
        check!(s != victim, "a removed endpoint was selected");
        leaves += 1;
        if leaves % 1000 == 0 {
            crate::core::alive();
        }
        mass[s] += (vals.len() as u128).pow(maxd - used as u32);
        seq.truncate(used);
        while let Some(l) = seq.last_mut() {
            *l += 1;
            if *l < vals.len() {
                break;
            }
            seq.pop();
        }
        if seq.is_empty() {
            break;
        }
    }
    let live: Vec<usize> = (0..n).filter(|i| n_now == n || *i != hist - n - 1).collect();
    check!(mass.iter().sum::<u128>() == total, "harness: mass {:?} total {total}", mass);
    for &i in &live {
        // expected share in units of 1/(m(m-1)): 2 per endpoint it beats, 1 per tie
        let m = live.len() as u128;
        let (num, den) = if m == 1 {
            (1, 1)
        } else {
            let x: u128 = live.iter().filter(|j| **j != i).map(|j| if loads[i] < loads[*j] { 2 } else if loads[i] == loads[*j] { 1 } else { 0 }).sum();
            (x, m * (m - 1))
        };
        check!(
            mass[i] * den == total * num,
            "loads {loads:?}: endpoint {i} is selected with probability {}/{total}, two distinct uniformly chosen candidates give {num}/{den}",
            mass[i]
        );
    }
    obs!("{loads:?} {mass:?} {leaves}");
}
fn noop() -> Waker {
    futures_util::task::noop_waker()
}
fn ready(b: &mut Balance<Disc<LSvc>, u32>, cx: &mut Context<'_>) {
    let r = <Balance<_, _> as Service<u32>>::poll_ready(b, cx);
    check!(matches!(r, Poll::Ready(Ok(()))), "the balancer is not ready although all endpoints are: {r:?}");
}
