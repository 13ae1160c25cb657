//! Random numbers (C32).
use crate::core::{choose, Scenario};
use crate::{check, obs, Prop, Tier};
use std::hash::{BuildHasher, Hasher};
use tower::util::rng::{HasherRng, Rng};

pub const C32: Prop = Prop {
    id: "C32",
    scenarios: c32,
    assumptions: &["generators are judged on evenly spread raw values; the quality of the standard library's hasher is trusted"],
};

fn c32(t: Tier) -> Vec<Scenario> {
    let max = t.pick(24u64, 80);
    vec![
        Scenario::new(format!("ranges within 0..{max}"), 0, move || small(max)),
        Scenario::new("ranges near the limits", 0, large),
        Scenario::new("floating point", 0, floats),
        Scenario::new("hasher", 0, move || hasher(t.pick(20_000, 2_000_000))),
    ]
}
/// One raw value, given out a limited number of times.
#[derive(Clone)]
struct One(u64, u32);
impl Rng for One {
    fn next_u64(&mut self) -> u64 {
        check!(self.1 > 0, "one number consumed more than four raw values");
        self.1 -= 1;
        self.0
    }
}
/// directly, or through a box
fn range(x: u64, boxed: bool, r: std::ops::Range<u64>) -> u64 {
    if boxed {
        let mut b: Box<dyn Rng> = Box::new(One(x, 4));
        b.next_range(r)
    } else {
        One(x, 4).next_range(r)
    }
}
/// 4n values, spread so that every residue modulo n and every n-th of the whole occurs four times
fn spread(n: u64) -> Vec<u64> {
    (0..4 * n)
        .map(|k| {
            let cell = ((k as u128) << 64) / (4 * n as u128);
            // the value within the cell with residue k modulo n
            let c = cell as u64 + 1;
            c + (k % n + n - c % n) % n
        })
        .collect()
}
async fn small(max: u64) {
    let start = choose(max as usize, "start") as u64;
    let end = start + 1 + choose((max - start) as usize, "size") as u64;
    let boxed = choose(2, "boxed") == 1;
    let n = end - start;
    let mut seen = vec![0usize; n as usize];
    for x in spread(n) {
        let r = range(x, boxed, start..end);
        check!((start..end).contains(&r), "{r} is outside of {start}..{end} (raw value {x})");
        seen[(r - start) as usize] += 1;
    }
    obs!("{seen:?}");
    check!(seen.iter().all(|k| *k == 4), "numbers of {start}..{end} are not equally likely: {seen:?} out of {}", 4 * n);
    for x in edges() {
        let r = range(x, boxed, start..end);
        check!((start..end).contains(&r), "{r} is outside of {start}..{end} (raw value {x})");
    }
}
fn edges() -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1, u64::MAX - p, u64::MAX - p + 1, (u64::MAX >> 1) ^ p]);
    }
    v.push(u64::MAX);
    v
}
async fn large() {
    let e = edges();
    let (a, b) = (e[choose(e.len(), "one end")], e[choose(e.len(), "other end")]);
    if a >= b {
        return;
    }
    for x in edges() {
        let r = range(x, false, a..b);
        check!((a..b).contains(&r), "{r} is outside of {a}..{b} (raw value {x})");
    }
    obs!("{a}..{b}");
}
async fn floats() {
    let boxed = choose(2, "boxed") == 1;
    let next = |x: u64| {
        let f = if boxed {
            let mut b: Box<dyn Rng> = Box::new(One(x, 4));
            b.next_f64()
        } else {
            One(x, 4).next_f64()
        };
        check!((0.0..1.0).contains(&f), "{f} is outside of [0,1) (raw value {x})");
        f
    };
    edges().into_iter().for_each(|x| drop(next(x)));
    // evenly spread raw values give evenly spread numbers
    let bits = [4usize, 8, 12][choose(3, "bits")];
    let mut seen = vec![0u32; 1 << bits];
    for k in 0..1u64 << (bits + 3) {
        let f = next((k << (64 - bits - 3)) | (k & 7));
        seen[(f * (1u64 << bits) as f64) as usize] += 1;
    }
    check!(seen.iter().all(|k| *k == 8), "the numbers are not spread evenly over [0,1)");
    obs!("{bits}");
}

/// A hasher that tells whatever it was fed apart.
#[derive(Clone)]
struct Plain;
struct PlainHasher(u64);
impl BuildHasher for Plain {
    type Hasher = PlainHasher;
    fn build_hasher(&self) -> PlainHasher {
        PlainHasher(0)
    }
}
impl Hasher for PlainHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
async fn hasher(n: usize) {
    match choose(3, "generator") {
        0 => {
            let mut r = HasherRng::with_hasher(Plain);
            let mut v: Vec<u64> = (0..n).map(|_| r.next_u64()).collect();
            v.sort();
            v.dedup();
            check!(v.len() == n, "{n} numbers of one generator repeat themselves: {} different ones", v.len());
        }
        // each random state is a new one (two of 2^64 being equal is ruled out)
        1 => {
            let v: std::collections::HashSet<u64> = (0..8).map(|_| HasherRng::new().next_u64()).collect();
            check!(v.len() == 8, "eight new generators start with {} different numbers", v.len());
        }
        _ => {
            let mut r = HasherRng::default();
            let v: std::collections::HashSet<u64> = (0..64).map(|_| r.next_u64()).collect();
            check!(v.len() == 64, "64 numbers of one generator repeat themselves: {} different ones", v.len());
        }
    }
    obs!("{n}");
}
