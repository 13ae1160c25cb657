//! Retry budget, sequential behaviour (C11), and exponential backoff (C13).
use crate::core::{choose, Scenario};
use crate::sched::settle;
use crate::{check, obs, Prop, Tier};
use std::cell::RefCell;
use std::time::Duration;
use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::util::rng::Rng;

pub const C11: Prop = Prop {
    id: "C11",
    scenarios: c11,
    assumptions: &[
        "time-to-live is a whole number of seconds, virtual time in whole milliseconds",
        "between one time-to-live and 1.1 times it an event may or may not be live, but events expire in order",
    ],
};
pub const C13: Prop = Prop {
    id: "C13",
    scenarios: c13,
    assumptions: &["the delay is read from the deadline of the returned tokio Sleep", "floating point rounding of one part in 10^9 plus 2ns is accepted"],
};

// ------------------------------------------------------------------------------------------ C11

/// Reference: which prefix of the events (in time order) is no longer live is only known up to an
/// interval; `feasible` holds every length of that prefix consistent with all answers so far.
struct Ref {
    ttl: u64,
    reserve: i64,
    num: i64,
    den: i64,
    /// (time, +deposit / -withdrawal in units of 1/den withdrawals)
    ev: Vec<(u64, i64)>,
    feasible: Vec<usize>,
}
impl Ref {
    fn age(&mut self, now: u64) {
        let lo = self.ev.iter().take_while(|e| (now - e.0) * 10 >= self.ttl * 11).count();
        let hi = self.ev.iter().take_while(|e| now - e.0 > self.ttl).count();
        let min = *self.feasible.iter().min().unwrap();
        self.feasible = (lo.max(min)..=hi.max(min)).collect();
    }
    fn balance(&self, c: usize) -> i64 {
        self.reserve * self.den + self.ev[c..].iter().map(|e| e.1).sum::<i64>()
    }
    fn deposit(&mut self, now: u64) {
        self.age(now);
        self.ev.push((now, self.num));
    }
    fn withdraw(&mut self, now: u64, ok: bool) {
        self.age(now);
        let all: Vec<i64> = self.feasible.iter().map(|&c| self.balance(c)).collect();
        let den = self.den;
        let keep: Vec<usize> = self.feasible.iter().copied().filter(|&c| (self.balance(c) >= den) == ok).collect();
        check!(
            !keep.is_empty(),
            "at {now}ms a withdrawal {} although the live balance is {all:?}/{den} withdrawals (ttl {}ms, reserve {}, share {}/{den}; events {:?})",
            if ok { "succeeded" } else { "was refused" },
            self.ttl,
            self.reserve,
            self.num,
            self.ev
        );
        self.feasible = keep;
        if ok {
            self.ev.push((now, -den));
        }
    }
}

fn c11(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    // (ttl seconds, minimum per second, share numerator, denominator, depth)
    for (ttl, min, num, den, depth) in t.pick(
        vec![(1u64, 0u32, 1i64, 2i64, 6), (1, 1, 0, 1, 6), (2, 0, 1, 1, 5), (1, 0, 2, 1, 5), (10, 0, 1, 1, 5)],
        vec![(1, 0, 1, 2, 7), (1, 1, 0, 1, 7), (2, 0, 1, 1, 7), (1, 0, 2, 1, 7), (3, 1, 1, 1, 6), (60, 0, 3, 1, 6), (7, 1, 1, 3, 6)],
    ) {
        v.push(Scenario::new(format!("timeline ttl={ttl}s min={min}/s share={num}/{den} depth={depth}"), 0, move || c11_time(ttl, min, num, den, depth)));
    }
    for (num, den) in t.pick(
        vec![(1i64, 10i64), (1, 5), (1, 3), (3, 10), (2, 5), (1, 2), (6, 10), (3, 4), (9, 10), (1, 1), (11, 10), (3, 2), (2, 1), (5, 2), (700, 1), (1000, 1), (0, 1)],
        vec![
            (1, 10), (1, 5), (1, 4), (1, 3), (3, 10), (2, 5), (1, 2), (6, 10), (2, 3), (7, 10), (3, 4), (4, 5), (9, 10), (95, 100), (99, 100), (1, 1),
            (101, 100), (11, 10), (5, 4), (4, 3), (3, 2), (9, 5), (2, 1), (5, 2), (10, 3), (15, 2), (99, 1), (333, 1), (600, 1), (700, 1), (999, 1), (1000, 1), (0, 1),
        ],
    ) {
        v.push(Scenario::new(format!("share {num}/{den}"), 0, move || c11_share(num, den)));
    }
    v.push(Scenario::new("reserve and deposits drained, any size", 0, move || c11_drain(t.pick(false, true))));
    v.push(Scenario::new("default budget", 0, c11_default));
    v
}

/// The whole balance is withdrawn at once, over the whole range of configurations: it is
/// min * ttl plus the share of the deposits; once they have expired, the reserve is back.
async fn c11_drain(more: bool) {
    let ttls: &[u64] = if more { &[1, 2, 3, 5, 7, 10, 13, 20, 30, 31, 45, 59, 60] } else { &[1, 2, 7, 10, 30, 31, 60] };
    let mins: &[u32] = if more { &[0, 1, 2, 3, 10, 100, 1000, 5000] } else { &[0, 1, 3, 10, 1000] };
    let shares: &[(i64, i64)] = &[(0, 1), (1, 1000), (1, 100), (1, 20), (1, 5), (1, 3), (1, 1), (3, 2), (10, 1), (1000, 1)];
    let ttl = ttls[choose(ttls.len(), "ttl")];
    let min = mins[choose(mins.len(), "min per sec")];
    let (num, den) = shares[choose(shares.len(), "share")];
    let ks = [0, den - 1, den, 2 * den - 1, 2 * den, 3 * den];
    let k = ks[choose(ks.len(), "deposits")].max(0);
    let b = TpsBudget::new(Duration::from_secs(ttl), min, num as f32 / den as f32);
    let drain = |limit: i64| {
        let mut got = 0;
        while got <= limit && b.withdraw() {
            got += 1;
        }
        got
    };
    for _ in 0..k {
        b.deposit();
    }
    let reserve = min as i64 * ttl as i64;
    let allow = reserve + (k * num) / den;
    let got = drain(allow);
    obs!("ttl={ttl}s min={min} share={num}/{den} deposits={k}: {got}");
    let more = if got > allow { " or more" } else { "" };
    check!(got == allow, "with ttl={ttl}s, a reserve of {min}/s and a share of {num}/{den}, {got}{more} withdrawals succeeded after {k} deposits instead of {allow}");
    // just short of the time-to-live nothing has come back
    tokio::time::advance(Duration::from_millis(ttl * 1000 - 1)).await;
    check!(!b.withdraw(), "a withdrawal succeeded although all withdrawals are younger than the time-to-live of {ttl}s");
    tokio::time::advance(Duration::from_millis(ttl * 100 + 2)).await;
    let got = drain(reserve);
    check!(got == reserve, "after the time-to-live of {ttl}s, {got} withdrawals succeeded instead of the reserve of {reserve}");
}

async fn c11_time(ttl_s: u64, min: u32, num: i64, den: i64, depth: usize) {
    let ttl = ttl_s * 1000;
    let b = TpsBudget::new(Duration::from_secs(ttl_s), min, num as f32 / den as f32);
    let mut r = Ref { ttl, reserve: min as i64 * ttl_s as i64, num, den, ev: vec![], feasible: vec![0] };
    let slot = ttl / 10;
    let mut now = 0;
    // (repetitions, step): after each step a withdrawal is attempted or not
    let advs = [
        (1, slot / 2, false),
        (1, slot, false),
        (5, slot + slot / 10, true),
        (9, slot + 1, true),
        (4, 2 * slot - 1, true),
        (1, ttl - slot, false),
        (1, ttl, false),
        (1, ttl + slot, false),
    ];
    for _ in 0..depth {
        let k = choose(3 + advs.len(), "op");
        match k {
            0 => {
                obs!("t={now} deposit");
                b.deposit();
                r.deposit(now);
            }
            1 | 2 => {
                for _ in 0..k {
                    let ok = b.withdraw();
                    obs!("t={now} withdraw -> {ok}");
                    r.withdraw(now, ok);
                }
            }
            _ => {
                let (n, d, touch) = advs[k - 3];
                for _ in 0..n {
                    tokio::time::advance(Duration::from_millis(d)).await;
                    now += d;
                    if touch {
                        let ok = b.withdraw();
                        obs!("t={now} withdraw -> {ok}");
                        r.withdraw(now, ok);
                    } else {
                        obs!("t={now}");
                    }
                }
            }
        }
    }
}

/// k deposits spread over up to three slots, then withdrawals until one is refused (and one more).
async fn c11_share(num: i64, den: i64) {
    let min = choose(2, "min per sec") as u32 * 3;
    let k = choose(31, "deposits");
    let spread = choose(3, "spread") + 1;
    let b = TpsBudget::new(Duration::from_secs(1), min, num as f32 / den as f32);
    let mut now = 0u64;
    for i in 0..k {
        b.deposit();
        if spread > 1 && i % 10 == 9 {
            let d = if spread == 2 { 100 } else { 150 };
            tokio::time::advance(Duration::from_millis(d)).await;
            now += d;
        }
    }
    let allow = min as i64 + (k as i64 * num) / den;
    let mut got = 0;
    while got <= allow && b.withdraw() {
        got += 1;
    }
    obs!("min={min} deposits={k} share={num}/{den} t={now}: {got} withdrawals");
    check!(
        got == allow,
        "after {k} deposits with a share of {num}/{den} and a reserve of {min}, {got}{} withdrawals succeeded instead of {allow}",
        if got > allow { " or more" } else { "" }
    );
    check!(!b.withdraw() && !b.withdraw(), "a refused withdrawal succeeded when repeated");
    // everything comes back after the time-to-live
    tokio::time::advance(Duration::from_millis(1101)).await;
    let mut again = 0;
    while again <= min as i64 && b.withdraw() {
        again += 1;
    }
    check!(again == min as i64, "long after the last event {again} withdrawals succeeded, reserve is {min}");
}

async fn c11_default() {
    // documented default: 10 per second over 10s plus 20%
    let b = TpsBudget::default();
    let k = choose(26, "deposits");
    for _ in 0..k {
        b.deposit();
    }
    let mut got = 0;
    while got < 1000 && b.withdraw() {
        got += 1;
    }
    obs!("{k} deposits: {got}");
    check!(got == 100 + k / 5, "default budget after {k} deposits grants {got} withdrawals instead of {}", 100 + k / 5);
}

// ------------------------------------------------------------------------------------------ C13

fn c13(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new("construction", 0, c13_new));
    let d = t.pick(3, 4);
    v.push(Scenario::new(format!("jitter, {d} delays"), 0, move || c13_seq(d, true)));
    v.push(Scenario::new("32 delays, one random word", 0, || c13_seq(32, false)));
    v.push(Scenario::new("default maker", 0, c13_default));
    v
}

thread_local! {
    static DRAWS: RefCell<(Vec<u64>, bool)> = const { RefCell::new((vec![], true)) };
}
const WORDS: [u64; 9] = [0, u64::MAX, 1 << 63, (1 << 11) - 1, 1 << 11, 0x1999_9999_9999_9999, 0x7fff_ffff_ffff_ffff, 0xdead_beef_1234_5678, 0xfd70_a3d7_0a3d_70a3];
#[derive(Clone, Debug)]
struct ScriptRng;
impl Rng for ScriptRng {
    fn next_u64(&mut self) -> u64 {
        DRAWS.with(|d| {
            let mut d = d.borrow_mut();
            let w = if d.1 || d.0.is_empty() { WORDS[choose(if d.0.len() < 2 { WORDS.len() } else { 4 }, "random word")] } else { d.0[0] };
            d.0.push(w);
            w
        })
    }
}

fn durations() -> Vec<Duration> {
    vec![
        Duration::ZERO,
        Duration::from_nanos(1),
        Duration::from_nanos(1_500),
        Duration::from_millis(1),
        Duration::from_millis(50),
        Duration::from_millis(999),
        Duration::from_millis(1000),
        Duration::from_millis(1500),
        Duration::new(3, 999_999_999),
        Duration::from_secs(90),
        Duration::from_secs(86_400),
    ]
}
const JIT: [f64; 9] = [0.0, 1e-9, 0.1, 0.5, 0.99, 1.0, 1.5, 7.25, 100.0];

async fn c13_new() {
    let ds = {
        let mut d = durations();
        d.push(Duration::from_millis(u64::MAX));
        d.push(Duration::MAX);
        d
    };
    let js: Vec<f64> = JIT.iter().copied().chain([-0.0, -1e-300, -0.5, 100.0000001, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE]).collect();
    let min = ds[choose(ds.len(), "min")];
    let max = ds[choose(ds.len(), "max")];
    let j = js[choose(js.len(), "jitter")];
    let valid = min <= max && max > Duration::ZERO && (0.0..=100.0).contains(&j);
    let r = ExponentialBackoffMaker::new(min, max, j, ScriptRng);
    obs!("new({min:?}, {max:?}, {j}) -> {}", r.is_ok());
    check!(r.is_ok() == valid, "ExponentialBackoffMaker::new({min:?}, {max:?}, {j}) -> ok={}, valid={valid}", r.is_ok());
}

fn expect(min: Duration, max: Duration, jit: f64, n: u32, word: Option<u64>) -> (f64, f64) {
    let (min, max) = (min.as_nanos(), max.as_nanos());
    let base = min.checked_mul(1u128 << n).unwrap_or(u128::MAX).min(max);
    let f = word.map(|w| (w >> 11) as f64 / (1u64 << 53) as f64).unwrap_or(0.0);
    let want = (base as f64 + base as f64 * f * jit).min(max as f64);
    (want, base as f64)
}

fn compare(got: Duration, min: Duration, max: Duration, jit: f64, n: u32, word: Option<u64>, what: &str) {
    let (want, base) = expect(min, max, jit, n, word);
    let g = got.as_nanos() as f64;
    obs!("{what}delay {n}: {got:?}");
    check!(
        (g - want).abs() <= want * 1e-9 + 2.0 && got <= max && g + 0.5 >= base,
        "{what}delay {n} of min={min:?} max={max:?} jitter={jit} with random word {word:?} is {got:?}, expected {:?}",
        Duration::from_nanos(want as u64)
    );
}

async fn c13_seq(len: u32, free_words: bool) {
    let ds = durations();
    let min = ds[choose(ds.len() - 2, "min")];
    let max = ds[choose(ds.len() - 1, "max") + 1];
    if min > max {
        return;
    }
    let jit = JIT[choose(JIT.len(), "jitter")];
    DRAWS.with(|d| *d.borrow_mut() = (vec![], free_words));
    let mut maker = ExponentialBackoffMaker::new(min, max, jit, ScriptRng).expect("valid configuration");
    let mut b = maker.make_backoff();
    let t0 = tokio::time::Instant::now();
    // another backoff of the same maker, started in between, begins with the first delay
    let second_at = if len > 8 { len / 2 } else { 1 };
    for n in 0..len {
        let before = DRAWS.with(|d| d.borrow().0.len());
        let s = b.next_backoff();
        let word = DRAWS.with(|d| {
            let d = d.borrow();
            d.0[before..].first().copied()
        });
        check!(word.is_some() || jit == 0.0, "no random factor was drawn with jitter {jit}");
        compare(s.deadline() - t0, min, max, jit, n.min(100), word, "");
        if n == second_at {
            let mut m2 = maker.clone();
            for (mk, what) in [(&mut maker, "re-made backoff: "), (&mut m2, "cloned maker: ")] {
                let before = DRAWS.with(|d| d.borrow().0.len());
                let s = mk.make_backoff().next_backoff();
                let word = DRAWS.with(|d| d.borrow().0[before..].first().copied());
                compare(s.deadline() - t0, min, max, jit, 0, word, what);
            }
        }
    }
    settle().await;
}

async fn c13_default() {
    let mut m = ExponentialBackoffMaker::default();
    let mut b = m.make_backoff();
    let t0 = tokio::time::Instant::now();
    for n in 0..20u32 {
        let got = (b.next_backoff().deadline() - t0).as_nanos();
        let base = 50_000_000u128 << n;
        check!(got >= base && got < base * 2, "default backoff delay {n} is {got}ns, base {base}ns");
    }
}
