//! The exploration engine: runs suites (finite, fully enumerated configuration spaces) on the real
//! library, in parallel, with per-case panic capture and a watchdog for calls that do not return.
use std::collections::BTreeMap;

/// The library's native scalar: f64 on 64-bit targets, f32 otherwise.
#[cfg(target_pointer_width = "64")]
pub type R = f64;
#[cfg(not(target_pointer_width = "64"))]
pub type R = f32;

pub const EPS: f64 = R::EPSILON as f64;
/// Rounding allowance relative to the magnitude of the data: a few hundred ulps, so that
/// reassociated or fused arithmetic stays quiet; wrong formulas are off by O(1).
pub const REL: f64 = 512.0 * EPS;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd)]
pub enum Tier {
    Small,
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, s: T, q: T, t: T) -> T {
        match self {
            Tier::Small => s,
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

#[derive(Debug)]
pub struct Violation(pub String);
pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err($crate::core::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::Violation(format!($($a)*))); } };
}

/// Per-worker accumulator.
pub struct Ctx {
    pub idx: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub classes: Vec<(&'static str, u64)>,
    pub samples: Vec<String>,
    /// bitmap of hashed outcomes: number of set bits is a lower bound on distinct outcomes
    pub outcomes: Vec<u64>,
}
pub const OUTBITS: usize = 1 << 20;
impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            idx: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            classes: Vec::new(),
            samples: Vec::new(),
            outcomes: vec![0; OUTBITS / 64],
        }
    }
    /// one library object whose behaviour is compared with the model
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    /// n library calls executed on it and compared
    #[inline]
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    /// one complete history (start state, calls, end state) replayed on the implementation
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn class(&mut self, name: &'static str) {
        self.class_n(name, 1)
    }
    pub fn class_n(&mut self, name: &'static str, n: u64) {
        for c in self.classes.iter_mut() {
            if std::ptr::eq(c.0, name) || c.0 == name {
                c.1 += n;
                return;
            }
        }
        self.classes.push((name, n));
    }
    #[inline]
    pub fn outcome(&mut self, bits: u64) {
        let mut h = bits ^ 0x9E37_79B9_7F4A_7C15;
        h = (h ^ (h >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        h ^= h >> 31;
        let b = (h as usize) % OUTBITS;
        self.outcomes[b / 64] |= 1 << (b % 64);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

pub struct Suite {
    pub name: String,
    /// what is enumerated, and within which bounds
    pub space: String,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>,
    /// model-side situations that must occur, or the exploration was vacuous
    pub must: Vec<&'static str>,
}
pub fn suite(
    name: impl Into<String>,
    space: impl Into<String>,
    n: u64,
    run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
) -> Suite {
    Suite { name: name.into(), space: space.into(), n, run: Box::new(run), must: vec![] }
}
impl Suite {
    pub fn must(mut self, m: &[&'static str]) -> Suite {
        self.must = m.to_vec();
        self
    }
}

/// Mixed-radix decoding of a case index: digit i in 0..radix.
pub struct Digits(pub u64);
impl Digits {
    #[inline]
    pub fn take(&mut self, radix: usize) -> usize {
        let r = (self.0 % radix as u64) as usize;
        self.0 /= radix as u64;
        r
    }
    pub fn vals<T: Copy>(&mut self, alpha: &[T], n: usize) -> Vec<T> {
        (0..n).map(|_| alpha[self.take(alpha.len())]).collect()
    }
}
pub fn ipow(a: usize, n: usize) -> u64 {
    (a as u64).pow(n as u32)
}

pub struct Failure {
    pub suite: String,
    pub idx: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    pub outcomes: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub suites: Vec<(String, String, u64, f64)>,
}

/// Runs one case, turning a panic of the code under test into a violation.
#[cfg(not(target_arch = "wasm32"))]
pub fn run_case(s: &Suite, idx: u64, ctx: &mut Ctx) -> Res {
    ctx.idx = idx;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Violation(format!("panic: {}", m)))
        }
    }
}
#[cfg(target_arch = "wasm32")]
pub fn run_case(s: &Suite, idx: u64, ctx: &mut Ctx) -> Res {
    ctx.idx = idx;
    (s.run)(idx, ctx)
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

#[cfg(not(target_arch = "wasm32"))]
pub mod native {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering::*};
    use std::sync::Mutex;
    use std::time::{Duration, Instant};

    pub const HANG_SECS: u64 = 120;

    struct Slot {
        idx: AtomicU64,
        /// milliseconds since the epoch of the run, or u64::MAX when idle
        since: AtomicU64,
    }

    pub fn run(
        suites: &[Suite],
        threads: usize,
        mut on_hang: impl FnMut(Failure) + Send,
    ) -> Result<Totals, (Totals, Failure)> {
        let mut tot = Totals::default();
        let mut union = vec![0u64; OUTBITS / 64];
        let epoch = Instant::now();
        for s in suites {
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let best = AtomicU64::new(u64::MAX);
            let fail: Mutex<Option<Failure>> = Mutex::new(None);
            let slots: Vec<Slot> = (0..threads)
                .map(|_| Slot { idx: AtomicU64::new(0), since: AtomicU64::new(u64::MAX) })
                .collect();
            let live = AtomicU64::new(threads as u64);
            let chunk = (s.n / (threads as u64 * 16)).clamp(1, 256);
            let merged: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for slot in &slots {
                    let (next, best, fail, live, merged) = (&next, &best, &fail, &live, &merged);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut ctx = Ctx::new();
                            'outer: loop {
                                let lo = next.fetch_add(chunk, Relaxed);
                                if lo >= s.n {
                                    break;
                                }
                                for i in lo..(lo + chunk).min(s.n) {
                                    if i >= best.load(Relaxed) {
                                        break 'outer;
                                    }
                                    slot.idx.store(i, Relaxed);
                                    slot.since.store(epoch.elapsed().as_millis() as u64, Relaxed);
                                    let r = run_case(s, i, &mut ctx);
                                    slot.since.store(u64::MAX, Relaxed);
                                    if let Err(Violation(what)) = r {
                                        let mut f = fail.lock().unwrap();
                                        if f.as_ref().map_or(true, |f| i < f.idx) {
                                            best.fetch_min(i, Relaxed);
                                            *f = Some(Failure { suite: s.name.clone(), idx: i, what });
                                        }
                                    }
                                }
                            }
                            merged.lock().unwrap().push(ctx);
                            live.fetch_sub(1, Relaxed);
                        })
                        .unwrap();
                }
                // watchdog
                while live.load(Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(2));
                    let now = epoch.elapsed().as_millis() as u64;
                    for slot in &slots {
                        let since = slot.since.load(Relaxed);
                        if since != u64::MAX && now > since && now - since > HANG_SECS * 1000 {
                            on_hang(Failure {
                                suite: s.name.clone(),
                                idx: slot.idx.load(Relaxed),
                                what: format!("no result after {} s: a library call does not return", HANG_SECS),
                            });
                        }
                    }
                }
            });
            for c in merged.into_inner().unwrap() {
                tot.states += c.states;
                tot.transitions += c.transitions;
                tot.traces += c.traces;
                for (k, v) in c.classes {
                    *tot.classes.entry(k.to_string()).or_insert(0) += v;
                }
                for x in c.samples {
                    if tot.samples.len() < 6 {
                        tot.samples.push(format!("[{}] {}", s.name, x));
                    }
                }
                for (a, b) in union.iter_mut().zip(&c.outcomes) {
                    *a |= b;
                }
            }
            tot.suites.push((s.name.clone(), s.space.clone(), s.n, t0.elapsed().as_secs_f64()));
            tot.outcomes = union.iter().map(|x| x.count_ones() as u64).sum();
            tot.cases += s.n;
            if let Some(f) = fail.into_inner().unwrap() {
                return Err((tot, f));
            }
        }
        Ok(tot)
    }
}

pub fn next_up(x: R) -> R {
    if x == 0.0 {
        return R::from_bits(1);
    }
    let b = x.to_bits();
    R::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: R) -> R {
    -next_up(-x)
}

#[inline]
pub fn near(got: R, want: crate::dd::DD, tol: f64) -> bool {
    let d = (crate::dd::dd(got as f64) - want).abs().hi;
    d <= tol
}
pub fn maxabs(v: &[R]) -> f64 {
    v.iter().fold(0.0f64, |a, b| a.max((*b as f64).abs()))
}
