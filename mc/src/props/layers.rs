//! Layer composition (C27): programs built from layers through every composition API.
use super::combi::{nc, BF, D, V};
use crate::core::{choose, Scenario};
use crate::env;
use crate::sched::{advance, settle, Flag};
use crate::{check, obs, Prop, Tier};
use std::cell::RefCell;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::layer::util::{Identity, Stack};
use tower::layer::{layer_fn, Layer};
use tower::util::{option_layer, BoxCloneServiceLayer, BoxCloneSyncServiceLayer, BoxLayer, Either};
use tower::{BoxError, Service, ServiceBuilder, ServiceExt};

pub const C27: Prop = Prop { id: "C27", scenarios: c27, assumptions: &["layers are pure wrappers (which the order of application cannot influence)"] };

// ---- what is observed: the order in which wrappers see readiness polls, requests and responses
thread_local! { static TRACE: RefCell<Vec<(char, u32)>> = const { RefCell::new(vec![]) }; }
fn tr(c: char, k: u32) {
    TRACE.with(|t| t.borrow_mut().push((c, k)))
}
fn take_trace() -> Vec<(char, u32)> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
const LEAF: u32 = 9999;
#[derive(Clone, Debug)]
struct Leaf(u32);
impl Service<V> for Leaf {
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), V>> {
        tr('r', LEAF);
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, r: V) -> BF {
        tr('q', LEAF);
        let id = self.0;
        Box::pin(async move { Ok(r.add(id)) })
    }
}
#[derive(Clone, Debug)]
struct Tag<S>(S, u32);
#[derive(Clone, Debug)]
struct T(u32);
impl<S> Layer<S> for T {
    type Service = Tag<S>;
    fn layer(&self, s: S) -> Tag<S> {
        Tag(s, self.0)
    }
}
impl<S: Service<V, Response = V>> Service<V> for Tag<S>
where
    S::Future: Send + 'static,
{
    type Response = V;
    type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<V, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        tr('r', self.1);
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: V) -> Self::Future {
        let k = self.1;
        tr('q', k);
        let f = self.0.call(r.add(k));
        Box::pin(async move {
            let r = f.await;
            tr('p', k);
            r.map(|v| v.add(1000 + k))
        })
    }
}

// ---- a layer of uniform type, whatever it is made of
#[derive(Clone)]
struct A(Rc<dyn Layer<D, Service = D>>, &'static str, u32);
unsafe impl Send for A {}
unsafe impl Sync for A {}
impl Layer<D> for A {
    type Service = D;
    fn layer(&self, d: D) -> D {
        self.0.layer(d)
    }
}
struct E<L>(L);
impl<L> Layer<D> for E<L>
where
    L: Layer<D>,
    L::Service: Service<V, Response = V, Error = V> + 'static,
    <L::Service as Service<V>>::Future: 'static,
{
    type Service = D;
    fn layer(&self, d: D) -> D {
        nc(self.0.layer(d))
    }
}
fn a<L>(l: L, name: &'static str, k: u32) -> A
where
    L: Layer<D> + 'static,
    L::Service: Service<V, Response = V, Error = V> + 'static,
    <L::Service as Service<V>>::Future: 'static,
{
    A(Rc::new(E(l)), name, k)
}
const KINDS: usize = 26;
/// An element for position `k`: the layer, and the tags it should contribute (outermost first).
fn element(kind: usize, k: u32) -> (A, Vec<u32>) {
    let (x, y) = (10 * k + 1, 10 * k + 2);
    let one = vec![x];
    let two = vec![x, y];
    let tag = |k: u32| move |s: D| Tag(s, k);
    match kind {
        0 => (a(T(x), "tag", k), one),
        1 => (a(Identity::new(), "identity", k), vec![]),
        2 => (a((), "empty tuple", k), vec![]),
        3 => (a(option_layer(None::<T>), "option none", k), vec![]),
        4 => (a(option_layer(Some(T(x))), "option some", k), one),
        5 => (a(Either::<T, Identity>::Left(T(x)), "either left", k), one),
        6 => (a(Either::<Identity, T>::Right(T(x)), "either right", k), one),
        7 => (a(layer_fn(tag(x)), "layer_fn", k), one),
        8 => (a(BoxLayer::<D, V, V, V>::new(T(x)), "boxed layer", k), one),
        9 => (a(BoxCloneServiceLayer::<D, V, V, V>::new(layer_fn(tag(x))), "boxed clone layer", k), one),
        10 => (a(BoxCloneSyncServiceLayer::<D, V, V, V>::new(T(x)).clone(), "boxed clone sync layer", k), one),
        11 => (a(Stack::new(T(y), T(x)), "stack", k), two),
        12 => (a((T(x), T(y)), "pair", k), two),
        13 => (a(ServiceBuilder::new().layer(T(x)).layer(T(y)), "builder as layer", k), two),
        14 => (a(ServiceBuilder::new().layer(T(x)).layer(T(y)).into_inner(), "builder into_inner", k), two),
        15 => (a(ServiceBuilder::new(), "empty builder", k), vec![]),
        16 => (a(ServiceBuilder::new().option_layer(Some(T(x))).option_layer(None::<T>).layer(T(y)), "builder option_layer", k), two),
        17 => (a(ServiceBuilder::new().layer_fn(move |s: Tag<D>| Tag(s, x)).layer_fn(tag(y)), "builder layer_fn", k), two),
        18 => (a(ServiceBuilder::new().boxed::<_, V>().layer(T(x)).layer(T(y)), "builder boxed", k), two),
        19 => (a(ServiceBuilder::new().boxed_clone::<_, V>().layer(T(x)).layer(T(y)), "builder boxed_clone", k), two),
        20 => (a(BoxCloneServiceLayer::<D, V, V, V>::new(ServiceBuilder::new().layer(Fix(x)).layer(Fix(y))), "boxed builder", k), two),
        21 => (a(&*Box::leak(Box::new((T(x), T(y)))), "reference", k), two),
        22 => (a(((T(x),), (), (T(y),)), "nested tuples", k), two),
        23 => (a(ServiceBuilder::default().layer((T(x), T(y))), "default builder", k), two),
        24 => (a(BcSync(ServiceBuilder::new().layer(Fix(x)).layer(Fix(y))), "builder boxed_clone_sync", k), two),
        25 => (a(ServiceBuilder::new().boxed().layer(Conv).layer(T(x)), "builder boxed first", k), one),
        _ => unreachable!(),
    }
}
/// A tag whose service is erased again.
#[derive(Clone)]
struct Fix(u32);
impl Layer<D> for Fix {
    type Service = D;
    fn layer(&self, d: D) -> D {
        super::combi::c(Tag(d, self.0))
    }
}
/// `ServiceBuilder::boxed_clone_sync` consumes the builder.
struct BcSync<L>(ServiceBuilder<L>);
impl<L> Layer<D> for BcSync<L>
where
    L: Layer<D, Service = D> + Clone + Send + std::marker::Sync + 'static,
{
    type Service = tower::util::BoxCloneSyncService<V, V, V>;
    fn layer(&self, d: D) -> Self::Service {
        BoxCloneSyncServiceLayer::new(self.0.clone().into_inner()).layer(d)
    }
}
#[derive(Clone)]
struct Conv;
impl<S: Service<V, Response = V, Error = V> + 'static> Layer<S> for Conv
where
    S::Future: 'static,
{
    type Service = D;
    fn layer(&self, s: S) -> D {
        nc(s)
    }
}

macro_rules! tuple_of {
    ($v:expr, $($i:tt)*) => { ($($v[$i].clone(),)*) };
}
macro_rules! builder_of {
    ($v:expr, $($i:tt)*) => { ServiceBuilder::new()$(.layer($v[$i].clone()))* };
}
/// Fold `$v` (outermost first) into nested stacks.
macro_rules! right {
    ($v:expr, $l:tt) => { $v[$l].clone() };
    ($v:expr, $h:tt $($r:tt)+) => { Stack::new(right!($v, $($r)+), $v[$h].clone()) };
}
macro_rules! left {
    ($v:expr, $acc:expr;) => { $acc };
    ($v:expr, $acc:expr; $h:tt $($r:tt)*) => { left!($v, Stack::new($v[$h].clone(), $acc); $($r)*) };
}
macro_rules! sizes {
    ($m:ident, $n:expr) => {
        match $n {
            0 => $m!(),
            1 => $m!(0), 2 => $m!(0 1), 3 => $m!(0 1 2), 4 => $m!(0 1 2 3), 5 => $m!(0 1 2 3 4), 6 => $m!(0 1 2 3 4 5),
            7 => $m!(0 1 2 3 4 5 6), 8 => $m!(0 1 2 3 4 5 6 7), 9 => $m!(0 1 2 3 4 5 6 7 8), 10 => $m!(0 1 2 3 4 5 6 7 8 9),
            11 => $m!(0 1 2 3 4 5 6 7 8 9 10), 12 => $m!(0 1 2 3 4 5 6 7 8 9 10 11), 13 => $m!(0 1 2 3 4 5 6 7 8 9 10 11 12),
            14 => $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13), 15 => $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14),
            16 => $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15),
            _ => unreachable!(),
        }
    };
}
const APIS: usize = 7;
/// Compose the layers through one API and build two services from the same composition.
fn compose(api: usize, v: &[A]) -> [D; 2] {
    let leafs = || [nc(Leaf(7001)), nc(Leaf(7002))];
    match api {
        0 => {
            macro_rules! m { ($($i:tt)*) => {{ let b = builder_of!(v, $($i)*); let [x, y] = leafs(); let s = b.service(x); [s, b.service(y)] }} }
            sizes!(m, v.len())
        }
        1 => {
            macro_rules! m { ($($i:tt)*) => {{ let b = tuple_of!(v, $($i)*); leafs().map(|l| b.layer(l)) }} }
            sizes!(m, v.len())
        }
        2 => {
            macro_rules! m { () => { leafs() }; ($($i:tt)+) => {{ let b = right!(v, $($i)+); leafs().map(|l| b.layer(l)) }} }
            sizes!(m, v.len())
        }
        3 => {
            macro_rules! m { ($($i:tt)*) => {{ let b = left!(v, Identity::new(); $($i)*); let b2 = b.clone(); let [x, y] = leafs(); let s = b.layer(x); [s, b2.layer(y)] }} }
            sizes!(m, v.len())
        }
        4 => {
            // the builder as a layer of another builder, cloned
            macro_rules! m { ($($i:tt)*) => {{ let b = ServiceBuilder::new().layer(builder_of!(v, $($i)*)).layer(Identity::new()); let [x, y] = leafs(); let s = b.clone().service(x); [s, Layer::layer(&b, y)] }} }
            sizes!(m, v.len())
        }
        5 => {
            // tuples inside a builder, by reference
            macro_rules! m { ($($i:tt)*) => {{ let t = tuple_of!(v, $($i)*); let b = ServiceBuilder::new().layer(&t); leafs().map(|l| b.service(l)) }} }
            sizes!(m, v.len())
        }
        6 => {
            // service_fn
            macro_rules! m { ($($i:tt)*) => {{ let b = builder_of!(v, $($i)*).layer(Conv); [7001u32, 7002].map(|i| b.clone().service_fn(move |r: V| { tr('q', LEAF); std::future::ready(Ok::<V, V>(r.add(i))) })) }} }
            sizes!(m, v.len())
        }
        _ => unreachable!(),
    }
}

fn c27(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for n in 0..=t.pick(4usize, 5) {
        v.push(Scenario::new(format!("all sequences of {n} layers"), 0, move || sequences(n, true)));
    }
    v.push(Scenario::new("sizes up to 16", 0, || sizes_upto(16)));
    v.push(Scenario::new("builder methods", 0, builder_methods));
    let depth = t.pick(7usize, 9);
    v.push(Scenario::new(format!("stacks of one builder are independent depth={depth}"), 0, move || independent(depth)));
    v
}
async fn sequences(n: usize, _all: bool) {
    let api = choose(APIS, "api");
    let els: Vec<(A, Vec<u32>)> = (0..n).map(|i| element(choose(KINDS, "layer"), i as u32 + 1)).collect();
    judge(api, els);
}
async fn sizes_upto(max: usize) {
    let n = choose(max + 1, "size");
    let api = choose(APIS, "api");
    let odd = choose(n + 1, "position of another layer");
    let kind = if odd < n { choose(KINDS, "layer") } else { 0 };
    let els: Vec<(A, Vec<u32>)> = (0..n).map(|i| element(if i == odd { kind } else { 0 }, i as u32 + 1)).collect();
    judge(api, els);
}
fn judge(api: usize, els: Vec<(A, Vec<u32>)>) {
    env::reset();
    let layers: Vec<A> = els.iter().map(|e| e.0.clone()).collect();
    let want: Vec<u32> = els.iter().flat_map(|e| e.1.clone()).collect();
    obs!("api {api}: {:?}", layers.iter().map(|l| l.1).collect::<Vec<_>>());
    let svcs = compose(api, &layers);
    take_trace();
    for (i, mut s) in svcs.into_iter().enumerate() {
        for round in 0..2 {
            let (_f, w) = Flag::new();
            let mut cx = Context::from_waker(&w);
            check!(s.poll_ready(&mut cx) == Poll::Ready(Ok(())), "the stack is not ready");
            let seen = take_trace();
            // every wrapper passes the poll on: outermost first
            let mut exp: Vec<(char, u32)> = want.iter().map(|k| ('r', *k)).collect();
            if api != 6 {
                exp.push(('r', LEAF));
            }
            check!(seen == exp, "readiness passed through {seen:?} instead of {exp:?}");
            let mut f = s.call(V(vec![round]));
            let seen = take_trace();
            let exp: Vec<(char, u32)> = want.iter().map(|k| ('q', *k)).chain([('q', LEAF)]).collect();
            check!(seen == exp, "the request passed through {seen:?} instead of {exp:?}");
            let r = f.as_mut().poll(&mut cx);
            let seen = take_trace();
            let exp: Vec<(char, u32)> = want.iter().rev().map(|k| ('p', *k)).collect();
            check!(seen == exp, "the response passed through {seen:?} instead of {exp:?}");
            let v: Vec<u32> = [round].into_iter().chain(want.iter().copied()).chain([7001 + i as u32]).chain(want.iter().rev().map(|k| 1000 + k)).collect();
            check!(r == Poll::Ready(Ok(V(v.clone()))), "result {r:?} instead of {v:?}");
        }
    }
}

// ---- builder methods: each puts its middleware, with its parameters, at its place
#[derive(Clone)]
struct Bx;
impl<S> Layer<S> for Bx {
    type Service = MapBox<S>;
    fn layer(&self, s: S) -> MapBox<S> {
        MapBox(s)
    }
}
#[derive(Clone)]
struct MapBox<S>(S);
impl<S: Service<V, Response = V>> Service<V> for MapBox<S>
where
    S::Error: Into<BoxError>,
    S::Future: Send + 'static,
{
    type Response = V;
    type Error = BoxError;
    type Future = Pin<Box<dyn Future<Output = Result<V, BoxError>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.poll_ready(cx).map_err(Into::into)
    }
    fn call(&mut self, r: V) -> Self::Future {
        let f = self.0.call(r);
        Box::pin(async move { f.await.map_err(Into::into) })
    }
}
/// An innermost service which is ready from the `n`th poll on, and whose responses take forever.
#[derive(Clone)]
struct Slow {
    ready: bool,
    answer: bool,
}
impl Service<V> for Slow {
    type Response = V;
    type Error = V;
    type Future = BF;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        tr('r', LEAF);
        if self.ready {
            Poll::Ready(Ok(()))
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    fn call(&mut self, r: V) -> BF {
        tr('q', LEAF);
        if self.answer {
            Box::pin(async move { Ok(r) })
        } else {
            Box::pin(std::future::pending())
        }
    }
}
#[derive(Clone)]
struct Twice(u32);
impl tower::retry::Policy<V, V, BoxError> for Twice {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, q: &mut V, _: &mut Result<V, BoxError>) -> Option<Self::Future> {
        tr('m', q.0[0]);
        self.0 = self.0.checked_sub(1)?;
        Some(std::future::ready(()))
    }
    fn clone_request(&mut self, q: &V) -> Option<V> {
        Some(q.clone())
    }
}
/// Stacks built from one builder next to stacks built from a builder each: no difference.
async fn independent(depth: usize) {
    use tower::util::BoxService;
    let which = choose(6, "method");
    let n = 1 + choose(2, "parameter");
    let by = choose(3, "built by");
    obs!("method {which} parameter {n} built by {by}");
    let leaf = Slow { ready: true, answer: which == 1 || which == 4 };
    // [from one builder, from a builder of its own]
    let mut pairs: Vec<[BoxService<V, V, BoxError>; 2]> = vec![];
    macro_rules! build {
        ($m:ident $(::<$ty:ty>)? ($($e:expr),*)) => {{
            let mk = || ServiceBuilder::new().layer(Bx).$m$(::<$ty>)?($($e),*).layer(Bx).layer(T(2));
            let common = mk();
            for _ in 0..2 {
                let x = match by {
                    0 => BoxService::new(common.clone().service(leaf.clone())),
                    1 => BoxService::new(common.service(leaf.clone())),
                    _ => BoxService::new(common.clone().into_inner().layer(leaf.clone())),
                };
                pairs.push([x, BoxService::new(mk().service(leaf.clone()))]);
            }
        }};
    }
    match which {
        0 => build!(concurrency_limit(n)),
        1 => build!(rate_limit(n as u64, Duration::from_millis(10))),
        2 => build!(timeout(Duration::from_millis(10 * n as u64))),
        3 => build!(buffer::<V>(n)),
        4 => build!(retry(Twice(n as u32))),
        _ => build!(load_shed()),
    }
    let mut ready = [false; 2];
    type F = <BoxService<V, V, BoxError> as Service<V>>::Future;
    let mut futs: Vec<Vec<[F; 2]>> = vec![vec![], vec![]];
    let (_f, w) = Flag::new();
    let mut cx = Context::from_waker(&w);
    let show = |r: Poll<Result<V, BoxError>>| match r {
        Poll::Pending => "pending".to_string(),
        Poll::Ready(Ok(v)) => format!("{v:?}"),
        Poll::Ready(Err(e)) => format!("error {e}"),
    };
    for _ in 0..depth {
        #[derive(Debug, Clone, Copy)]
        enum Op {
            Poll(usize),
            Call(usize),
            PollF(usize),
            DropF(usize),
            Time,
        }
        let mut ops = vec![];
        for i in 0..2 {
            ops.push(if ready[i] { Op::Call(i) } else { Op::Poll(i) });
            if !futs[i].is_empty() {
                ops.extend([Op::PollF(i), Op::DropF(i)]);
            }
        }
        if which == 1 || which == 2 {
            ops.push(Op::Time);
        }
        let op = ops[choose(ops.len(), "op")];
        obs!("{op:?}");
        match op {
            Op::Poll(i) => {
                let [x, y] = &mut pairs[i];
                let (x, y) = (x.poll_ready(&mut cx), y.poll_ready(&mut cx));
                check!(format!("{x:?}") == format!("{y:?}"), "readiness {x:?} of a stack of a shared builder, {y:?} of one built on its own");
                ready[i] = matches!(x, Poll::Ready(Ok(())));
            }
            Op::Call(i) => {
                ready[i] = false;
                let [x, y] = &mut pairs[i];
                let f = [x.call(V(vec![i as u32])), y.call(V(vec![i as u32]))];
                futs[i].push(f);
            }
            Op::PollF(i) => {
                let [x, y] = futs[i].last_mut().unwrap();
                let (x, y) = (show(x.as_mut().poll(&mut cx)), show(y.as_mut().poll(&mut cx)));
                check!(x == y, "outcome {x} in a stack of a shared builder, {y} in one built on its own");
                if x != "pending" {
                    futs[i].pop();
                }
            }
            Op::DropF(i) => drop(futs[i].pop()),
            Op::Time => advance(5).await,
        }
        settle().await;
        take_trace();
    }
}
async fn builder_methods() {
    let which = choose(8, "method");
    let n = 1 + choose(3, "parameter");
    obs!("method {which} parameter {n}");
    take_trace();
    let (_f, w) = Flag::new();
    let mut cx = Context::from_waker(&w);
    let q = |k| ('q', k);
    let fast = Slow { ready: true, answer: true };
    let hang = Slow { ready: true, answer: false };
    match which {
        0 => {
            let s = ServiceBuilder::new().layer(Bx).layer(T(1)).concurrency_limit(n).layer(T(2)).service(hang);
            let mut hs: Vec<_> = (0..n + 1).map(|_| s.clone()).collect();
            for (i, h) in hs.iter_mut().enumerate() {
                check!(h.poll_ready(&mut cx).is_ready() == (i < n), "concurrency_limit({n}): readiness of handle {i}");
            }
            take_trace();
            let _f = hs[0].call(V(vec![5]));
            check!(take_trace() == vec![q(1), q(2), q(LEAF)], "order");
        }
        1 => {
            let per = Duration::from_millis(100 * n as u64);
            let mut s = ServiceBuilder::new().layer(Bx).layer(T(1)).rate_limit(n as u64 + 1, per).layer(T(2)).service(fast);
            for i in 0..n + 1 {
                check!(s.poll_ready(&mut cx).is_ready(), "rate_limit: call {i} of {} withheld", n + 1);
                take_trace();
                let _f = s.call(V(vec![5]));
                check!(take_trace() == vec![q(1), q(2), q(LEAF)], "order");
            }
            check!(s.poll_ready(&mut cx).is_pending(), "rate_limit: more than {} calls", n + 1);
            advance(per.as_millis() as u64 - 2).await;
            check!(s.poll_ready(&mut cx).is_pending(), "rate_limit: too early");
            advance(3).await;
            check!(s.poll_ready(&mut cx).is_ready(), "rate_limit: too late");
        }
        2 => {
            let d = 50 * n as u64;
            let mut s = ServiceBuilder::new().layer(T(1)).timeout(Duration::from_millis(d)).layer(Bx).layer(T(2)).service(hang);
            check!(s.poll_ready(&mut cx).is_ready(), "ready");
            take_trace();
            let mut f = s.call(V(vec![5]));
            check!(take_trace() == vec![q(1), q(2), q(LEAF)], "order");
            check!(f.as_mut().poll(&mut cx).is_pending(), "answer");
            advance(d - 1).await;
            check!(f.as_mut().poll(&mut cx).is_pending(), "timeout too early");
            advance(2).await;
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(Err(e)) => check!(e.is::<tower::timeout::error::Elapsed>(), "timed out with {e:?}"),
                r => crate::fail!("timeout: {r:?}"),
            }
        }
        3 => {
            let mut s = ServiceBuilder::new().layer(T(1)).load_shed().layer(Bx).layer(T(2)).service(Slow { ready: n == 1, answer: true });
            check!(s.poll_ready(&mut cx).is_ready(), "load_shed: not ready");
            take_trace();
            let mut f = s.call(V(vec![5]));
            let tr = take_trace();
            let r = f.as_mut().poll(&mut cx);
            if n == 1 {
                check!(tr == vec![q(1), q(2), q(LEAF)], "order {tr:?}");
                check!(matches!(r, Poll::Ready(Ok(_))), "{r:?}");
            } else {
                check!(tr == vec![q(1)], "order {tr:?}");
                check!(matches!(&r, Poll::Ready(Err(e)) if e.is::<tower::load_shed::error::Overloaded>()), "{r:?}");
            }
        }
        4 => {
            let mut s = ServiceBuilder::new().layer(T(1)).retry(Twice(n as u32)).layer(Bx).layer(T(2)).service(fast);
            check!(s.poll_ready(&mut cx).is_ready(), "ready");
            take_trace();
            let mut f = s.call(V(vec![5]));
            let r = f.as_mut().poll(&mut cx);
            check!(r.is_ready(), "pending");
            let tr: Vec<_> = take_trace().into_iter().filter(|x| x.0 == 'q').collect();
            let mut exp = vec![q(1)];
            exp.extend((0..n + 1).flat_map(|_| [q(2), q(LEAF)]));
            check!(tr == exp, "order {tr:?} instead of {exp:?}");
        }
        5 => {
            // filters see the request after the layers added before them, and before those added after
            let pass = n == 1;
            let check_req = move |r: V| -> Result<V, BoxError> {
                tr('q', 50);
                if pass {
                    Ok(r.add(50))
                } else {
                    Err(Box::new(r.add(51)))
                }
            };
            take_trace();
            let (trace, res) = if choose(2, "async") == 0 {
                let mut s = ServiceBuilder::new().layer(T(1)).filter(check_req).layer(Bx).layer(T(2)).service(fast);
                check!(s.poll_ready(&mut cx).is_ready(), "ready");
                take_trace();
                let mut f = s.call(V(vec![5]));
                let r = f.as_mut().poll(&mut cx);
                (take_trace(), r)
            } else {
                let mut s = ServiceBuilder::new().layer(T(1)).filter_async(move |r: V| std::future::ready(check_req(r))).layer(Bx).layer(T(2)).service(fast);
                check!(s.poll_ready(&mut cx).is_ready(), "ready");
                take_trace();
                let mut f = s.call(V(vec![5]));
                let r = f.as_mut().poll(&mut cx);
                (take_trace(), r)
            };
            let qs: Vec<_> = trace.into_iter().filter(|x| x.0 == 'q').collect();
            if pass {
                check!(qs == vec![q(1), q(50), q(2), q(LEAF)], "order {qs:?}");
                check!(matches!(&res, Poll::Ready(Ok(v)) if *v == V(vec![5, 1, 50, 2, 1002, 1001])), "{res:?}");
            } else {
                check!(qs == vec![q(1), q(50)], "order {qs:?}");
                check!(matches!(&res, Poll::Ready(Err(e)) if e.downcast_ref::<V>() == Some(&V(vec![5, 1, 51]))), "{res:?}");
            }
        }
        6 => {
            let s = ServiceBuilder::new().layer(T(1)).buffer::<V>(n).layer(Bx).layer(T(2)).service(hang);
            let mut hs: Vec<_> = (0..n + 1).map(|_| s.clone()).collect();
            for (i, h) in hs.iter_mut().enumerate() {
                check!(h.poll_ready(&mut cx).is_ready() == (i < n), "buffer({n}): readiness of handle {i}");
            }
            take_trace();
            let mut f = hs[0].call(V(vec![5]));
            check!(take_trace() == vec![q(1)], "order");
            let _ = f.as_mut().poll(&mut cx);
            settle().await;
            let qs: Vec<_> = take_trace().into_iter().filter(|x| x.0 == 'q').collect();
            check!(qs == vec![q(2), q(LEAF)], "order {qs:?}");
        }
        _ => {
            // function combinators: each method in the middle of a stack
            let b = ServiceBuilder::new().layer(Bx).layer(T(1));
            let m = choose(7, "combinator");
            let req = V(vec![5]);
            macro_rules! go {
                ($e:expr) => {{
                    let mut s = $e.layer(T(2)).service(Leaf(8));
                    check!(s.poll_ready(&mut cx).is_ready(), "ready");
                    take_trace();
                    poll_fn(|_| Poll::Ready(())).await;
                    s.call(req.clone()).as_mut().poll(&mut cx)
                }};
            }
            let res = match m {
                0 => go!(b.map_request(|r: V| r.add(50))),
                1 => go!(b.map_response(|r: V| r.add(50))),
                2 => go!(b.map_err(|r: V| r.add(50))),
                3 => go!(b.map_result(|r: Result<V, V>| r.map(|r| r.add(50)))),
                4 => go!(b.then(|r: Result<V, V>| std::future::ready(r.map(|r| r.add(50))))),
                5 => go!(b.and_then(|r: V| std::future::ready(Ok::<V, V>(r.add(50))))),
                _ => go!(b.map_future(|f: Pin<Box<dyn Future<Output = Result<V, V>> + Send>>| async move { f.await.map(|r| r.add(50)) })),
            };
            let exp = match m {
                0 => vec![5, 1, 50, 2, 8, 1002, 1001],
                2 => vec![5, 1, 2, 8, 1002, 1001],
                _ => vec![5, 1, 2, 8, 1002, 50, 1001],
            };
            check!(matches!(&res, Poll::Ready(Ok(v)) if v.0 == exp), "{res:?} instead of {exp:?}");
        }
    }
    let _ = ServiceExt::<V>::boxed(Leaf(0));
}
