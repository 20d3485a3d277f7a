//! Adapters: one view over every Bézier-like type of the library.
use crate::core::R;
pub use crate::template::{template, template_into, TEMPLATES};
use stroke::bezier_segment::BezierSegment;
use stroke::{Bezier, CubicBezier, LineSegment, PointN, QuadraticBezier, Spline};

pub type Pt<const DIM: usize> = PointN<R, DIM>;

#[inline]
pub fn pt<const DIM: usize>(a: [R; DIM]) -> Pt<DIM> {
    PointN::new(a)
}
#[inline]
pub fn arr<const DIM: usize>(p: Pt<DIM>) -> [R; DIM] {
    let mut o = [0.0 as R; DIM];
    for (a, b) in o.iter_mut().zip(p.into_iter()) {
        *a = b;
    }
    o
}

pub trait Curve<const DIM: usize>: Clone {
    /// number of control points
    const N: usize;
    fn kind() -> &'static str;
    fn build(c: &[[R; DIM]]) -> Self;
    fn ctrl(&self) -> Vec<[R; DIM]>;
    fn eval(&self, t: R) -> [R; DIM];
    /// every evaluation entry point
    fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM]));
    fn split(&self, t: R) -> (Self, Self);
    fn arclen(&self, n: usize) -> Option<R>;
    fn dist(&self, p: [R; DIM]) -> R;
}

impl<const DIM: usize> Curve<DIM> for LineSegment<Pt<DIM>> {
    const N: usize = 2;
    fn kind() -> &'static str {
        "line"
    }
    fn build(c: &[[R; DIM]]) -> Self {
        LineSegment::new(pt(c[0]), pt(c[1]))
    }
    fn ctrl(&self) -> Vec<[R; DIM]> {
        let s = BezierSegment::from(*self);
        vec![arr(s.start()), arr(s.end())]
    }
    fn eval(&self, t: R) -> [R; DIM] {
        arr(LineSegment::eval(self, t))
    }
    fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM])) {
        f("LineSegment::eval", arr(LineSegment::eval(self, t)));
        let mut a = [0.0 as R; DIM];
        for d in 0..DIM {
            a[d] = self.axis(t, d);
        }
        f("LineSegment::axis", a);
        f("BezierSegment::eval", arr(BezierSegment::from(*self).eval::<R>(t)));
    }
    fn split(&self, t: R) -> (Self, Self) {
        LineSegment::split(self, t)
    }
    fn arclen(&self, _n: usize) -> Option<R> {
        None
    }
    fn dist(&self, p: [R; DIM]) -> R {
        self.distance_to_point(pt(p))
    }
}

impl<const DIM: usize> Curve<DIM> for QuadraticBezier<Pt<DIM>> {
    const N: usize = 3;
    fn kind() -> &'static str {
        "quadratic"
    }
    fn build(c: &[[R; DIM]]) -> Self {
        QuadraticBezier::new(pt(c[0]), pt(c[1]), pt(c[2]))
    }
    fn ctrl(&self) -> Vec<[R; DIM]> {
        self.control_points().iter().map(|p| arr(*p)).collect()
    }
    fn eval(&self, t: R) -> [R; DIM] {
        arr(QuadraticBezier::eval(self, t))
    }
    fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM])) {
        f("QuadraticBezier::eval", arr(QuadraticBezier::eval(self, t)));
        f("QuadraticBezier::eval_casteljau", arr(self.eval_casteljau(t)));
        let mut a = [0.0 as R; DIM];
        for d in 0..DIM {
            a[d] = self.axis(t, d);
        }
        f("QuadraticBezier::axis", a);
        f("BezierSegment::eval", arr(BezierSegment::from(*self).eval::<R>(t)));
    }
    fn split(&self, t: R) -> (Self, Self) {
        QuadraticBezier::split(self, t)
    }
    fn arclen(&self, n: usize) -> Option<R> {
        Some(QuadraticBezier::arclen(self, n))
    }
    fn dist(&self, p: [R; DIM]) -> R {
        self.distance_to_point(pt(p))
    }
}

impl<const DIM: usize> Curve<DIM> for CubicBezier<Pt<DIM>> {
    const N: usize = 4;
    fn kind() -> &'static str {
        "cubic"
    }
    fn build(c: &[[R; DIM]]) -> Self {
        CubicBezier::new(pt(c[0]), pt(c[1]), pt(c[2]), pt(c[3]))
    }
    fn ctrl(&self) -> Vec<[R; DIM]> {
        self.control_points().iter().map(|p| arr(*p)).collect()
    }
    fn eval(&self, t: R) -> [R; DIM] {
        arr(CubicBezier::eval(self, t))
    }
    fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM])) {
        f("CubicBezier::eval", arr(CubicBezier::eval(self, t)));
        f("CubicBezier::eval_casteljau", arr(self.eval_casteljau(t)));
        let mut a = [0.0 as R; DIM];
        for d in 0..DIM {
            a[d] = self.axis(t, d);
        }
        f("CubicBezier::axis", a);
        f("BezierSegment::eval", arr(BezierSegment::from(*self).eval::<R>(t)));
    }
    fn split(&self, t: R) -> (Self, Self) {
        CubicBezier::split(self, t)
    }
    fn arclen(&self, n: usize) -> Option<R> {
        Some(CubicBezier::arclen(self, n))
    }
    fn dist(&self, p: [R; DIM]) -> R {
        self.distance_to_point(pt(p))
    }
}

impl<const DIM: usize, const N: usize> Curve<DIM> for Bezier<Pt<DIM>, N> {
    const N: usize = N;
    fn kind() -> &'static str {
        "generic"
    }
    fn build(c: &[[R; DIM]]) -> Self {
        let mut a = [pt([0.0; DIM]); N];
        for (x, y) in a.iter_mut().zip(c) {
            *x = pt(*y);
        }
        Bezier::new(a)
    }
    fn ctrl(&self) -> Vec<[R; DIM]> {
        self.control_points().iter().map(|p| arr(*p)).collect()
    }
    fn eval(&self, t: R) -> [R; DIM] {
        arr(Bezier::eval(self, t))
    }
    fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM])) {
        f("Bezier::eval", arr(Bezier::eval(self, t)));
        f("Spline::eval", arr(<Self as Spline<Pt<DIM>>>::eval(self, t)));
    }
    fn split(&self, t: R) -> (Self, Self) {
        Bezier::split(self, t)
    }
    fn arclen(&self, n: usize) -> Option<R> {
        Some(Bezier::arclen(self, n))
    }
    fn dist(&self, p: [R; DIM]) -> R {
        self.distance_to_point(pt(p))
    }
}

/// Coefficients per axis, as f64.
pub fn axes<const DIM: usize>(c: &[[R; DIM]]) -> Vec<Vec<f64>> {
    (0..DIM).map(|d| c.iter().map(|p| p[d] as f64).collect()).collect()
}
pub fn scale_of<const DIM: usize>(c: &[[R; DIM]]) -> f64 {
    c.iter().fold(0.0, |a, p| p.iter().fold(a, |a: f64, x| a.max((*x as f64).abs())))
}

// ---------------------------------------------------------------- parameter grids

pub fn params_small() -> Vec<R> {
    let e = R::EPSILON;
    let mut v: Vec<R> = vec![
        0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, 1.0 / 3.0, 2.0 / 3.0, 0.05, 0.95, 0.01, 0.99, 1e-3, 0.999,
        e, 1.0 - e, 1e-5, 1.0 - 1e-5, 0.3, 0.7, 0.4, 0.6, 0.45, 0.55, 0.15, 0.85, 0.2, 0.8, 0.35, 0.65,
    ];
    v.push(0.5 + e);
    v.push(0.5 - e);
    v
}
pub fn params_fine(n: usize) -> Vec<R> {
    let mut v = params_small();
    for k in 0..=n {
        v.push((k as f64 / n as f64) as R);
    }
    for k in 0..=1000 {
        v.push((k as f64 / 1000.0) as R);
    }
    for k in 1..=(if EPSBITS > 24 { 52 } else { 23 }) {
        let p = (0.5f64).powi(k) as R;
        v.push(p);
        v.push(1.0 - p);
    }
    v
}
const EPSBITS: u32 = R::MANTISSA_DIGITS;

/// Rich coordinate alphabet (simple values first).
pub const RICH: [f64; 24] = [
    0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 0.1, 1.0 / 3.0, -0.7, 10.0, -100.0, 12345.678, 1e6, -1e6, 1e-6, -1e-3,
    3.0, 4.0, -0.0, 0.99, 1.0 + 1e-7, -6.5, 255.0, 7e-9,
];
/// Alphabet sizes per tier, extended in the thorough tier.
pub fn alpha_more(tier: crate::core::Tier, s: usize, q: usize, t: usize) -> Vec<R> {
    alpha(tier.pick(s, (q + t + 1) / 2, (t + t / 4).max(t + 1)))
}
pub fn alpha(n: usize) -> Vec<R> {
    RICH[..n.min(RICH.len())].iter().map(|x| *x as R).collect()
}

// ---------------------------------------------------------------- control point spaces

/// Number of control polygons of n points with every coordinate from an alphabet of a values.
pub fn lattice_n<const DIM: usize>(n: usize, a: usize) -> u64 {
    crate::core::ipow(a, n * DIM)
}
/// The i-th of them.
pub fn lattice<const DIM: usize>(i: u64, n: usize, al: &[R]) -> Vec<[R; DIM]> {
    let mut dg = crate::core::Digits(i);
    (0..n)
        .map(|_| {
            let mut p = [0.0 as R; DIM];
            for x in p.iter_mut() {
                *x = al[dg.take(al.len())];
            }
            p
        })
        .collect()
}
/// Axis d of case i carries column number i + d*stride of the list of all 1-D columns, so that every
/// column occurs on every axis next to different neighbours.
pub fn columns<const DIM: usize>(i: u64, n: usize, al: &[R]) -> Vec<[R; DIM]> {
    let total = crate::core::ipow(al.len(), n);
    let mut c = vec![[0.0 as R; DIM]; n];
    for d in 0..DIM {
        let col = (i + d as u64 * (total / 3 + 7)) % total;
        let mut dg = crate::core::Digits(col);
        for p in c.iter_mut() {
            p[d] = al[dg.take(al.len())];
        }
    }
    c
}
pub fn same<const DIM: usize>(a: [R; DIM], b: [R; DIM], tol: f64) -> bool {
    (0..DIM).all(|d| ((a[d] as f64) - (b[d] as f64)).abs() <= tol)
}
/// Largest distance between consecutive control points, per coordinate.
pub fn to64<const DIM: usize>(a: [R; DIM]) -> Vec<f64> {
    a.iter().map(|x| *x as f64).collect()
}

/// Coarse samples of the distance search: squared distances at 0, 1/64, ..., 1.
pub fn coarse(cols: &[Vec<f64>], q: &[f64]) -> Vec<f64> {
    use crate::dd::*;
    use crate::model::*;
    thread_local! {
        static W: std::cell::RefCell<Vec<Option<Vec<Vec<DD>>>>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    let n = cols[0].len() - 1;
    W.with(|w| {
        let mut w = w.borrow_mut();
        while w.len() <= n {
            w.push(None);
        }
        let g = w[n].get_or_insert_with(|| (0..=64).map(|i| bern_weights(n, dd(i as f64 / 64.0))).collect());
        g.iter()
            .map(|w| {
                let mut s = ZERO;
                for (c, q) in cols.iter().zip(q) {
                    let e = dot(w, c) - dd(*q);
                    s = s + e * e;
                }
                s.f()
            })
            .collect()
    })
}
/// More than one coarse sample is (up to rounding) the best one: implementations may legitimately
/// refine around either.
pub fn coarse_tie(cols: &[Vec<f64>], q: &[f64], tol2: f64) -> bool {
    let d = coarse(cols, q);
    let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
    d.iter().filter(|x| **x <= m + tol2).count() > 1
}

// ---------------------------------------------------------------- spaces of control polygons

/// Magnitudes at which whole configurations are repeated (the library works in absolute coordinates).
#[cfg(target_pointer_width = "64")]
pub const SCALES: [f64; 14] = [1e-30, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-2, 1e2, 1e4, 1e7, 1e12, 1e30];
#[cfg(not(target_pointer_width = "64"))]
pub const SCALES: [f64; 10] = [1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-2, 1e2, 1e4, 1e7, 1e12];

/// Step counts: all small ones, and around powers of two and ten up to a bound.
pub fn step_counts(dense: usize, bound: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense).collect();
    let mut around = |m: usize| {
        for n in [m - 1, m, m + 1] {
            if n > dense && n <= bound + 1 && !v.contains(&n) {
                v.push(n);
            }
        }
    };
    for k in 6..40 {
        around(1usize << k.min(31));
    }
    for m in [100usize, 200, 250, 300, 500, 750, 1000, 1500, 2000, 3000, 5000, 7777, 10_000, 20_000, 50_000, 100_000, 500_000, 1_000_000] {
        around(m);
    }
    v
}

/// How control polygons are drawn from the alphabet.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// every coordinate free
    Full,
    /// every 1-D column on every axis
    Columns,
    /// every tuple over the first k of the template points
    Points(usize),
    /// one moved control point at a time, ramp, alternating, constant, growing
    Patterns,
}

/// How many template points n-tuples are drawn from.
pub fn npoints(tier: crate::core::Tier, n: usize) -> usize {
    use crate::core::Tier::*;
    let n = n.min(9);
    match tier {
        Small => [9, 9, 6, 4, 3, 2, 2, 2, 2, 2][n],
        Quick => [13, 13, 13, 11, 7, 4, 3, 2, 2, 2][n],
        Thorough => [13, 13, 13, 13, 12, 7, 5, 3, 3, 2][n],
    }
}

fn pattern_point<const DIM: usize>(i: usize, n: usize, j: usize) -> [R; DIM] {
    let mut p = [0.0 as R; DIM];
    for (d, x) in p.iter_mut().enumerate() {
        let j = if d % 2 == 1 { n - 1 - j } else { j };
        let v = if i < n {
            (j == (i + d) % n) as usize as f64
        } else {
            match i - n {
                0 => j as f64 - 2.5,
                1 => if j % 2 == 0 { 1.0 } else { -1.0 },
                2 => 7.25,
                3 => 1.25f64.powi(j as i32),
                _ => ((j * j * 7 + j * 3 + d) % 11) as f64 * 0.7 - 3.0,
            }
        };
        *x = (v * (1.0 + 0.5 * d as f64)) as R;
    }
    p
}

#[derive(Clone)]
pub struct Space {
    pub al: Vec<R>,
    pub mode: Mode,
    pub scales: Vec<f64>,
}
impl Space {
    pub fn new(al: Vec<R>, full: bool) -> Space {
        Space { al, mode: if full { Mode::Full } else { Mode::Columns }, scales: vec![1.0] }
    }
    /// every configuration at every magnitude
    pub fn scaled(al: Vec<R>, full: bool) -> Space {
        Space { al, mode: if full { Mode::Full } else { Mode::Columns }, scales: SCALES.to_vec() }
    }
    /// points in special position
    pub fn points(k: usize) -> Space {
        Space { al: vec![], mode: Mode::Points(k.min(TEMPLATES)), scales: vec![1.0] }
    }
    /// for long curves
    pub fn patterns() -> Space {
        Space { al: vec![], mode: Mode::Patterns, scales: vec![1.0] }
    }
    pub fn total<const DIM: usize>(&self, n: usize) -> u64 {
        let k = match self.mode {
            Mode::Full => lattice_n::<DIM>(n, self.al.len()),
            Mode::Columns => ipow(self.al.len(), n),
            Mode::Points(k) => ipow(k, n),
            Mode::Patterns => n as u64 + 5,
        };
        k * self.scales.len() as u64
    }
    pub fn get<const DIM: usize>(&self, i: u64, n: usize) -> (Vec<[R; DIM]>, R) {
        let k = self.scales.len() as u64;
        let s = self.scales[(i % k) as usize] as R;
        let mut c: Vec<[R; DIM]> = match self.mode {
            Mode::Full => lattice(i / k, n, &self.al),
            Mode::Columns => columns(i / k, n, &self.al),
            Mode::Points(m) => {
                let mut dg = Digits(i / k);
                (0..n).map(|_| template::<DIM>(dg.take(m))).collect()
            }
            Mode::Patterns => (0..n).map(|j| pattern_point(i as usize, n, j)).collect(),
        };
        if k > 1 {
            for p in c.iter_mut() {
                for x in p.iter_mut() {
                    *x *= s;
                }
            }
        }
        (c, s)
    }
    pub fn tag(&self) -> String {
        match self.mode {
            Mode::Points(k) => format!("points{k}"),
            Mode::Patterns => "patterns".to_string(),
            m => format!("a{}{}{}", self.al.len(), if m == Mode::Full { "-full" } else { "" }, if self.scales.len() > 1 { "-scales" } else { "" }),
        }
    }
    pub fn what(&self, n: usize, dim: usize) -> String {
        if let Mode::Points(k) = self.mode {
            return format!("all {n}-tuples over {k} points in special position in {dim} dimensions");
        }
        if self.mode == Mode::Patterns {
            return format!("{n} unit columns, ramp, alternating, constant, growing and scattered columns of {n} points in {dim} dimensions");
        }
        format!(
            "{} of {n} points in {dim} dimensions over {:?}{}",
            if self.mode == Mode::Full { "all control polygons" } else { "all columns on every axis" },
            self.al,
            if self.scales.len() > 1 { format!(", each at the magnitudes {:?}", self.scales) } else { String::new() }
        )
    }
}
use crate::core::{ipow, Digits};
