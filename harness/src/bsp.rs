//! Type-erased B-splines of every (C, D) the explorations use, and the spaces of knot vectors.
use crate::core::*;
use crate::shapes::*;
pub use stroke::bspline::BSplineError;
use stroke::BSpline;

pub trait Sp {
    fn c(&self) -> usize;
    fn d(&self) -> usize;
    fn dim(&self) -> usize;
    /// Ok: the point is written to out
    fn eval(&self, t: R, out: &mut [R]) -> Result<(), BSplineError>;
    fn domain(&self) -> (R, R);
    fn arclen(&self, n: usize) -> R;
    /// None for degree 0
    fn derivative(&self) -> Option<Box<dyn Sp>>;
    fn knots(&self) -> Vec<R>;
    fn ctrl(&self) -> Vec<Vec<R>>;
    fn copy(&self) -> Box<dyn Sp>;
}

struct Holder<const K: usize, const C: usize, const D: usize, const DIM: usize>(BSpline<Pt<DIM>, K, C, D>);

fn points<const C: usize, const DIM: usize>(ctrl: &[Vec<R>]) -> [Pt<DIM>; C] {
    let mut a = [pt([0.0; DIM]); C];
    for (i, p) in a.iter_mut().enumerate() {
        let mut x = [0.0 as R; DIM];
        for (d, v) in x.iter_mut().enumerate() {
            *v = ctrl[i][d];
        }
        *p = pt(x);
    }
    a
}

macro_rules! imp {
    ($k:tt $c:tt $d:tt $dim:tt ; $($der:tt)*) => {
        impl Sp for Holder<$k, $c, $d, $dim> {
            fn c(&self) -> usize { $c }
            fn d(&self) -> usize { $d }
            fn dim(&self) -> usize { $dim }
            fn eval(&self, t: R, out: &mut [R]) -> Result<(), BSplineError> {
                let p = arr(self.0.eval(t)?);
                out[..$dim].copy_from_slice(&p);
                Ok(())
            }
            fn domain(&self) -> (R, R) { self.0.knot_domain() }
            fn arclen(&self, n: usize) -> R { self.0.arclen(n) }
            fn derivative(&self) -> Option<Box<dyn Sp>> { imp!(@der self $k $c $d $dim ; $($der)*) }
            fn knots(&self) -> Vec<R> { self.0.knots().copied().collect() }
            fn ctrl(&self) -> Vec<Vec<R>> { self.0.control_points().map(|p| arr(*p).to_vec()).collect() }
            fn copy(&self) -> Box<dyn Sp> { Box::new(Holder::<$k, $c, $d, $dim>(self.0.clone())) }
        }
    };
    (@der $s:ident $k:tt $c:tt $d:tt $dim:tt ; der) => {
        Some(Box::new(Holder::<{ $k - 2 }, { $c - 1 }, { $d - 1 }, $dim>($s.0.derivative())))
    };
    (@der $s:ident $k:tt $c:tt $d:tt $dim:tt ; ) => { None };
}

/// (C, D): every degree 0..=5 with 1..=5 spans, and some long ones.
macro_rules! table {
    ($( ($k:tt, $c:tt, $d:tt) $($der:ident)? ; )*) => {
        $( imp!($k $c $d 1 ; $($der)?); imp!($k $c $d 2 ; $($der)?); imp!($k $c $d 3 ; $($der)?); imp!($k $c $d 8 ; $($der)?); )*
        /// All (C, D) available.
        pub const SHAPES: &[(usize, usize)] = &[ $(($c, $d)),* ];
        pub fn make(c: usize, d: usize, dim: usize, knots: &[R], ctrl: &[Vec<R>]) -> Result<Box<dyn Sp>, BSplineError> {
            if !matches!(dim, 1 | 2 | 3 | 8) {
                return make_wide(c, d, dim, knots, ctrl);
            }
            $( if (c, d) == ($c, $d) {
                let mut k = [0.0 as R; $k];
                k.copy_from_slice(knots);
                return Ok(match dim {
                    1 => Box::new(Holder::<$k, $c, $d, 1>(BSpline::new(k, points(ctrl))?)),
                    2 => Box::new(Holder::<$k, $c, $d, 2>(BSpline::new(k, points(ctrl))?)),
                    3 => Box::new(Holder::<$k, $c, $d, 3>(BSpline::new(k, points(ctrl))?)),
                    _ => Box::new(Holder::<$k, $c, $d, 8>(BSpline::new(k, points(ctrl))?)),
                });
            } )*
            panic!("no spline type for {c} control points of degree {d}")
        }
    };
}
table! {
    (2, 1, 0); (3, 2, 0); (4, 3, 0); (5, 4, 0); (6, 5, 0);
    (4, 2, 1) der; (5, 3, 1) der; (6, 4, 1) der; (7, 5, 1) der; (8, 6, 1) der;
    (6, 3, 2) der; (7, 4, 2) der; (8, 5, 2) der; (9, 6, 2) der; (10, 7, 2) der;
    (8, 4, 3) der; (9, 5, 3) der; (10, 6, 3) der; (11, 7, 3) der; (12, 8, 3) der;
    (10, 5, 4) der; (11, 6, 4) der; (12, 7, 4) der; (13, 8, 4) der; (14, 9, 4) der;
    (12, 6, 5) der; (13, 7, 5) der; (14, 8, 5) der; (15, 9, 5) der; (16, 10, 5) der;
    (14, 7, 6) der; (16, 8, 7) der;
    (10, 9, 0); (12, 10, 1) der; (14, 11, 2) der; (16, 12, 3) der;
    (16, 15, 0); (18, 16, 1) der;
    (18, 17, 0); (20, 18, 1) der; (22, 19, 2) der; (24, 20, 3) der;
    (15, 8, 6) der; (17, 9, 7) der; (19, 10, 8) der; (21, 11, 9) der; (23, 12, 10) der; (25, 13, 11) der; (27, 14, 12) der;
    (64, 63, 0); (66, 64, 1) der; (68, 65, 2) der; (70, 66, 3) der;
    (300, 299, 0); (302, 300, 1) der;
}

/// The other dimensions, for a few (C, D).
macro_rules! wide {
    ($( ($k:tt, $c:tt, $d:tt) $($der:ident)? ; )*) => {
        $( imp!($k $c $d 4 ; $($der)?); imp!($k $c $d 5 ; $($der)?); imp!($k $c $d 6 ; $($der)?);
           imp!($k $c $d 7 ; $($der)?); imp!($k $c $d 9 ; $($der)?); imp!($k $c $d 10 ; $($der)?); )*
        fn make_wide(c: usize, d: usize, dim: usize, knots: &[R], ctrl: &[Vec<R>]) -> Result<Box<dyn Sp>, BSplineError> {
            $( if (c, d) == ($c, $d) {
                let mut k = [0.0 as R; $k];
                k.copy_from_slice(knots);
                return Ok(match dim {
                    4 => Box::new(Holder::<$k, $c, $d, 4>(BSpline::new(k, points(ctrl))?)),
                    5 => Box::new(Holder::<$k, $c, $d, 5>(BSpline::new(k, points(ctrl))?)),
                    6 => Box::new(Holder::<$k, $c, $d, 6>(BSpline::new(k, points(ctrl))?)),
                    7 => Box::new(Holder::<$k, $c, $d, 7>(BSpline::new(k, points(ctrl))?)),
                    9 => Box::new(Holder::<$k, $c, $d, 9>(BSpline::new(k, points(ctrl))?)),
                    _ => Box::new(Holder::<$k, $c, $d, 10>(BSpline::new(k, points(ctrl))?)),
                });
            } )*
            panic!("no spline type for {c} control points of degree {d} in {dim} dimensions")
        }
    };
}
wide! {
    (2, 1, 0); (3, 2, 0); (4, 3, 0); (5, 4, 0);
    (4, 2, 1) der; (5, 3, 1) der; (6, 4, 1) der;
    (6, 3, 2) der; (7, 4, 2) der; (8, 4, 3) der; (9, 5, 3) der;
}

/// Explores control points in special position, in 1 to 10 dimensions: every C-tuple over the first template points.
pub fn ctrl_suites(prefix: &str, tier: Tier, limit: [u64; 3], f: fn(&[R], usize, usize, usize, &[Vec<R>], &mut Ctx) -> Res) -> Vec<Suite> {
    let lim = tier.pick(limit[0], limit[1], limit[2]);
    let mut v = vec![];
    for (c, d) in [(3usize, 0usize), (3, 1), (4, 1), (3, 2), (4, 2), (4, 3), (5, 3)] {
        let words: Vec<Vec<f64>> = {
            let k = c + d;
            let clamped = (0..k).map(|i| if i < d || i >= c { 0.0 } else { 1.0 }).collect();
            let uneven = (0..k).map(|i| [0.5, 1.0, 0.25, 2.0][i % 4]).collect();
            vec![clamped, uneven]
        };
        for dim in 1..=10 {
            let m = (1..=TEMPLATES).rev().find(|m| ipow(*m, c) <= lim).unwrap_or(1);
            let words = words.clone();
            v.push(suite(
                format!("{prefix}-ctrl-C{c}-D{d}-dim{dim}"),
                format!("every {c}-tuple over {m} control points in special position in {dim} dimensions (C={c}, D={d}), clamped and uneven knots"),
                ipow(m, c) * words.len() as u64,
                move |i, ctx| {
                    let nw = words.len() as u64;
                    let mut dg = Digits(i / nw);
                    let ctrl: Vec<Vec<R>> = (0..c)
                        .map(|_| {
                            let mut p = vec![0.0 as R; dim];
                            template_into(&mut p, dg.take(m));
                            p
                        })
                        .collect();
                    f(&word(-0.5, 1.0, &words[(i % nw) as usize]), c, d, dim, &ctrl, ctx)
                },
            ));
        }
    }
    v
}

/// Non-decreasing knot words: first knot `first`, then gaps from an alphabet.
pub fn word(first: f64, scale: f64, gaps: &[f64]) -> Vec<R> {
    let mut k = first;
    let mut acc = 0.0;
    let mut v = vec![k as R];
    for g in gaps {
        acc += g;
        k = first + acc * scale;
        v.push(k as R);
    }
    v
}

/// Gap patterns for long splines: clamped at either/both/no end, with an interior knot of every multiplicity.
pub fn long_words(c: usize, d: usize) -> Vec<Vec<f64>> {
    let k = c + d + 1;
    let mut out = vec![];
    for front in [false, true] {
        for back in [false, true] {
            let mut base = vec![1.0; k - 1];
            if front {
                for g in base.iter_mut().take(d) {
                    *g = 0.0;
                }
            }
            if back {
                for g in base.iter_mut().rev().take(d) {
                    *g = 0.0;
                }
            }
            out.push(base.clone());
            // interior repetition of every multiplicity at every place
            for m in 1..=d {
                for at in d..k - 1 - d {
                    if at + m <= k - 1 - d {
                        let mut b = base.clone();
                        for g in b.iter_mut().skip(at).take(m) {
                            *g = 0.0;
                        }
                        out.push(b);
                    }
                }
            }
            // uneven gaps
            let mut b = base.clone();
            for (i, g) in b.iter_mut().enumerate() {
                if *g > 0.0 {
                    *g = [1.0, 0.3, 2.7, 0.05, 1.9][i % 5];
                }
            }
            out.push(b);
        }
    }
    out
}

/// Parameters worth trying inside the domain of a knot vector.
pub fn inside(knots: &[R], c: usize, d: usize, per_span: &[f64]) -> Vec<R> {
    let (a, b) = (knots[d], knots[c]);
    let mut v: Vec<R> = vec![];
    let mut push = |t: R| {
        if t >= a && t <= b && !v.contains(&t) {
            v.push(t);
        }
    };
    for i in d..=c {
        push(knots[i]);
        push(next_up(knots[i]));
        push(next_down(knots[i]));
        if i < c && knots[i] < knots[i + 1] {
            for f in per_span {
                push(knots[i] + (knots[i + 1] - knots[i]) * *f as R);
            }
        }
    }
    v
}

/// One knot vector together with what it was made from.
pub struct KnotSpace {
    pub c: usize,
    pub d: usize,
    pub gaps: Vec<f64>,
    pub frames: Vec<(f64, f64)>,
}
impl KnotSpace {
    pub fn n(&self) -> u64 {
        ipow(self.gaps.len(), self.c + self.d) * self.frames.len() as u64
    }
    pub fn word(&self, i: u64) -> Vec<R> {
        let mut dg = Digits(i);
        let g = dg.vals(&self.gaps, self.c + self.d);
        let (f, s) = self.frames[dg.take(self.frames.len())];
        word(f, s, &g)
    }
    pub fn text(&self) -> String {
        format!(
            "all knot vectors of {} knots (C={}, D={}) with gaps from {:?}, at (first knot, unit) in {:?}",
            self.c + self.d + 1, self.c, self.d, self.gaps, self.frames
        )
    }
}

/// The standard spaces: (C, D) small enough for exhaustive words.
pub fn spaces(tier: Tier, limit: [u64; 3]) -> Vec<KnotSpace> {
    let lim = tier.pick(limit[0], limit[1], limit[2]);
    let alphabets: [&[f64]; 4] = [&[0.0, 1.0, 0.3, 2.5, 0.07], &[0.0, 1.0, 0.3, 2.5], &[0.0, 1.0, 0.3], &[0.0, 1.0]];
    let frames: [(f64, f64); 7] = [(0.0, 1.0), (-3.7, 0.1), (0.1, 0.2), (1000.5, 0.37), (-1.0, 1.0), (0.3, 1e-3), (0.0, 250.0)];
    let mut v = vec![];
    for &(c, d) in SHAPES {
        if c > 10 {
            continue;
        }
        let len = c + d;
        // the largest alphabet that fits, then as many frames as fit
        for al in alphabets {
            let n = ipow(al.len(), len);
            if n <= lim {
                let nf = ((lim / n) as usize).clamp(1, frames.len());
                v.push(KnotSpace { c, d, gaps: al.to_vec(), frames: frames[..nf].to_vec() });
                break;
            }
        }
    }
    v
}

/// Index sets for the identity control points: block b of 8 control points.
pub fn identity(c: usize, block: usize) -> Vec<Vec<R>> {
    (0..c).map(|i| (0..8).map(|k| if i == block * 8 + k { 1.0 } else { 0.0 }).collect()).collect()
}

/// Bounds, per control point, on the coordinates of the control points of the r-th derivative (r = 0..=d), from the
/// magnitudes of those of the spline.
pub fn derivative_bounds(knots: &[f64], d: usize, mags: &[f64]) -> Vec<Vec<f64>> {
    let mut all = vec![mags.to_vec()];
    for r in 1..=d {
        let deg = d + 1 - r;
        let q = &all[r - 1];
        // the knots of this level start at number r - 1
        let k = &knots[r - 1..];
        all.push(
            (0..q.len() - 1)
                .map(|i| {
                    let w = k[i + deg + 1] - k[i + 1];
                    if w > 0.0 { (q[i] + q[i + 1]) * deg as f64 / w } else { 0.0 }
                })
                .collect(),
        );
    }
    all
}
/// The largest of the bounds that matter at t: control points span-d ..= span-r of the r-th derivative.
pub fn bound_at(b: &[Vec<f64>], knots: &[f64], c: usize, d: usize, r: usize, t: f64) -> f64 {
    match crate::model::span(knots, c, d, t) {
        Some(k) => b[r][k - d..=k - r].iter().fold(0.0, |a, x| a.max(*x)),
        None => 0.0,
    }
}
pub fn mags(ctrl: &[Vec<R>]) -> Vec<f64> {
    ctrl.iter().map(|p| p.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs()))).collect()
}

/// Control point patterns (dimension dim), times a scale.
pub fn pattern_s(c: usize, dim: usize, which: usize, s: f64) -> Vec<Vec<R>> {
    let mut p = pattern(c, dim, which);
    if s != 1.0 {
        for x in p.iter_mut().flatten() {
            *x *= s as R;
        }
    }
    p
}
pub fn pattern(c: usize, dim: usize, which: usize) -> Vec<Vec<R>> {
    (0..c)
        .map(|i| {
            (0..dim)
                .map(|d| {
                    let x = (i * 7 + d * 3 + which * 5) as f64;
                    (match which % 4 {
                        0 => (x * 0.73).rem_euclid(3.1) - 1.2,
                        1 => if (i + d) % 2 == 0 { 1.0 } else { -1.0 },
                        2 => i as f64 * (d as f64 + 1.0) - 2.0,
                        _ => [1e3, -0.25, 7.0, 1.0 / 3.0, -1e-3][(i + d) % 5],
                    }) as R
                })
                .collect()
        })
        .collect()
}

pub fn interior_mult_ok(knots: &[R], c: usize, d: usize) -> bool {
    let _ = c;
    // no knot of multiplicity above d+1
    knots.windows(d + 2).all(|w| w[0] < w[d + 1])
}
pub fn classify(knots: &[R], c: usize, d: usize) -> &'static str {
    let k = knots.len();
    let front = knots[0] == knots[d];
    let back = knots[k - 1] == knots[c];
    if knots[d] == knots[c] {
        return "degenerate domain";
    }
    match (front, back) {
        (true, true) => "clamped",
        (true, false) => "clamped at the start",
        (false, true) => "clamped at the end",
        (false, false) => "unclamped",
    }
}
pub fn repeated_inside(knots: &[R], c: usize, d: usize) -> bool {
    (d + 1..c).any(|i| i + 1 < c && knots[i] == knots[i + 1] && knots[i] > knots[d] && knots[i] < knots[c])
}

pub fn word_suites(prefix: &str, tier: Tier, limit: [u64; 3], f: fn(&[R], usize, usize, f64, &mut Ctx) -> Res) -> Vec<Suite> {
    let mut v = vec![];
    let mut done = vec![];
    for sp in spaces(tier, limit) {
        let (c, d) = (sp.c, sp.d);
        done.push((c, d));
        v.push(suite(format!("{prefix}-C{c}-D{d}"), sp.text(), sp.n(), move |i, ctx| f(&sp.word(i), c, d, 1.0, ctx)));
    }
    for &(c, d) in SHAPES {
        if done.contains(&(c, d)) && c < 9 {
            continue;
        }
        let mut ws = long_words(c, d);
        let all = ws.len();
        let most = if c > 100 { tier.pick(4, 16, 200) } else if c > 30 { tier.pick(4, 48, 2000) } else { 10_000 };
        if all > most {
            ws = (0..most).map(|k| ws[k * all / most].clone()).collect();
        }
        let frames = [(0.0, 1.0), (-3.7, 0.1), (1000.5, 0.37)];
        v.push(suite(
            format!("{prefix}-long-C{c}-D{d}"),
            format!("{} of {all} gap patterns (every clamping, every interior multiplicity at every place, uneven) of C={c}, D={d} x (first, unit) in {frames:?}", ws.len()),
            ws.len() as u64 * 3,
            move |i, ctx| {
                let (f0, u) = frames[i as usize % 3];
                f(&word(f0, u, &ws[i as usize / 3]), c, d, 1.0, ctx)
            },
        ));
    }
    // very uneven knots: gaps of different magnitudes next to each other
    for (c, d) in [(3usize, 1usize), (4, 1), (5, 1), (3, 2), (4, 2), (5, 2), (4, 3), (5, 3), (6, 3)] {
        let alphabets: [&[f64]; 4] = [&[0.0, 1.0, 1e-6, 3e3, 2e-3], &[0.0, 1.0, 1e-6, 3e3], &[1.0, 0.0, 2e-6], &[1.0, 1e-6]];
        if let Some(al) = alphabets.iter().find(|al| ipow(al.len(), c + d) <= tier.pick(limit[0], limit[1], limit[2])) {
            let sp = KnotSpace { c, d, gaps: al.to_vec(), frames: vec![(0.0, 1.0)] };
            v.push(suite(format!("{prefix}-uneven-C{c}-D{d}"), sp.text(), sp.n(), move |i, ctx| f(&sp.word(i), c, d, 1.0, ctx)));
        }
    }
    // magnitudes of control points and of the knot unit
    for (c, d) in [(3usize, 0usize), (4, 1), (4, 2), (5, 3)] {
        let us = [1.0, 1e-7, 1e5];
        let gaps: Vec<f64> = if d < 2 { vec![0.0, 1.0, 0.3] } else { vec![0.0, 1.0] };
        let sp = KnotSpace { c, d, gaps, frames: us.iter().map(|u| (-*u, *u)).collect() };
        let ns = SCALES.len() as u64;
        let f = f;
        v.push(suite(
            format!("{prefix}-scales-C{c}-D{d}"),
            format!("{}, control points at the magnitudes {SCALES:?}", sp.text()),
            sp.n() * ns,
            move |i, ctx| f(&sp.word(i / ns), c, d, SCALES[(i % ns) as usize], ctx),
        ));
    }
    v
}

