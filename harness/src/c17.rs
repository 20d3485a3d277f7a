//! C17: the curves use a point only through the point trait.
//! Foreign point types: other memory layouts, an iterator over something else, an own scalar newtype.
use crate::core::*;
use crate::need;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use stroke::bezier_segment::BezierSegment;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

// ------------------------------------------------------------------ a scalar of its own
/// A newtype of f64.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct S(f64);
impl S {
    fn of(x: f64) -> S {
        S(x)
    }
    fn get(self) -> f64 {
        self.0
    }
}
/// A scalar that carries something else along: three times the size of an f64.
#[derive(Clone, Copy, Debug)]
pub struct Wide {
    ops: u32,
    v: f64,
    name: &'static str,
}
impl Wide {
    fn of(x: f64) -> Wide {
        Wide { ops: 1, v: x, name: "computed" }
    }
    fn get(self) -> f64 {
        self.v
    }
}
impl Default for Wide {
    fn default() -> Wide {
        Wide { ops: 0, v: 0.0, name: "default" }
    }
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for Wide {
    fn partial_cmp(&self, o: &Wide) -> Option<std::cmp::Ordering> {
        let _ = (self.ops, self.name);
        self.v.partial_cmp(&o.v)
    }
}
/// A scalar of half the size and precision.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct Half(f32);
impl Half {
    fn of(x: f32) -> Half {
        Half(x)
    }
    fn get(self) -> f32 {
        self.0
    }
}
macro_rules! scalar {
    ($S:ident $f:ty) => {
        scalar!(@bin $S $f; Add add, Sub sub, Mul mul, Div div, Rem rem);
        impl Neg for $S {
            type Output = $S;
            fn neg(self) -> $S {
                $S::of(-self.get())
            }
        }
        impl From<f64> for $S {
            fn from(x: f64) -> $S {
                $S::of(x as $f)
            }
        }
        impl From<$S> for f64 {
            fn from(x: $S) -> f64 {
                x.get() as f64
            }
        }
        impl Sum<f64> for $S {
            fn sum<I: Iterator<Item = f64>>(i: I) -> $S {
                $S::of(i.fold(0.0, |a, x| a + x as $f))
            }
        }
        impl Zero for $S {
            fn zero() -> $S {
                $S::of(0.0)
            }
            fn is_zero(&self) -> bool {
                self.get() == 0.0
            }
        }
        impl One for $S {
            fn one() -> $S {
                $S::of(1.0)
            }
        }
        impl Num for $S {
            type FromStrRadixErr = <$f as Num>::FromStrRadixErr;
            fn from_str_radix(s: &str, r: u32) -> Result<$S, Self::FromStrRadixErr> {
                <$f as Num>::from_str_radix(s, r).map($S::of)
            }
        }
        impl ToPrimitive for $S {
            fn to_i64(&self) -> Option<i64> {
                self.get().to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                self.get().to_u64()
            }
            fn to_f64(&self) -> Option<f64> {
                Some(self.get() as f64)
            }
        }
        impl NumCast for $S {
            fn from<T: ToPrimitive>(n: T) -> Option<$S> {
                n.to_f64().map(|x| $S::of(x as $f))
            }
        }
        scalar!(@float $S $f;
            consts nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon;
            un floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
            is is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
            bi powf log max min abs_sub hypot atan2
        );
    };
    (@bin $S:ident $f:ty; $($t:ident $m:ident),*) => { $(
        impl $t for $S { type Output = $S; fn $m(self, o: $S) -> $S { $S::of($t::$m(self.get(), o.get())) } }
        impl $t<f64> for $S { type Output = $S; fn $m(self, o: f64) -> $S { $S::of($t::$m(self.get(), o as $f)) } }
    )* };
    (@float $S:ident $f:ty; consts $($c:ident)*; un $($u:ident)*; is $($i:ident)*; bi $($b:ident)*) => {
        impl Float for $S {
            $( fn $c() -> $S { $S::of(<$f as Float>::$c()) } )*
            $( fn $u(self) -> $S { $S::of(Float::$u(self.get())) } )*
            $( fn $i(self) -> bool { Float::$i(self.get()) } )*
            $( fn $b(self, o: $S) -> $S { $S::of(Float::$b(self.get(), o.get())) } )*
            fn classify(self) -> FpCategory { Float::classify(self.get()) }
            fn mul_add(self, a: $S, b: $S) -> $S { $S::of(Float::mul_add(self.get(), a.get(), b.get())) }
            fn powi(self, n: i32) -> $S { $S::of(Float::powi(self.get(), n)) }
            fn sin_cos(self) -> ($S, $S) { let (a, b) = Float::sin_cos(self.get()); ($S::of(a), $S::of(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.get()) }
        }
    };
}
scalar!(S f64);
scalar!(Wide f64);
scalar!(Half f32);

// ------------------------------------------------------------------ point types
/// Named fields, declared out of order; iterates over characters.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Named {
    z: f64,
    x: f64,
    tag: u8,
    y: f64,
}
/// f64 scalars, stored in reverse, first component in a separate field.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Apart<const N: usize> {
    rest: [f64; N],
    first: f64,
}
impl<const N: usize> Default for Apart<N> {
    fn default() -> Self {
        Apart { rest: [0.0; N], first: 0.0 }
    }
}

pub trait Make: Point
where
    Self::Scalar: Into<f64> + From<f64>,
{
    fn make(c: &[f64]) -> Self;
}

impl Make for Named {
    fn make(c: &[f64]) -> Self {
        Named { x: c[0], y: c[1], z: c[2], tag: 0 }
    }
}
impl Add for Named {
    type Output = Named;
    fn add(self, o: Named) -> Named {
        Named { x: self.x + o.x, y: self.y + o.y, z: self.z + o.z, tag: 0 }
    }
}
impl Sub for Named {
    type Output = Named;
    fn sub(self, o: Named) -> Named {
        Named { x: self.x - o.x, y: self.y - o.y, z: self.z - o.z, tag: 0 }
    }
}
impl Mul<f64> for Named {
    type Output = Named;
    fn mul(self, s: f64) -> Named {
        Named { x: self.x * s, y: self.y * s, z: self.z * s, tag: 0 }
    }
}
impl IntoIterator for Named {
    type Item = char;
    type IntoIter = std::array::IntoIter<char, 3>;
    fn into_iter(self) -> Self::IntoIter {
        ['x', 'y', 'z'].into_iter()
    }
}
impl Point for Named {
    type Scalar = f64;
    const DIM: usize = 3;
    fn axis(&self, i: usize) -> f64 {
        match i {
            0 => self.x,
            1 => self.y,
            2 => self.z,
            _ => panic!("axis"),
        }
    }
    fn squared_length(&self) -> f64 {
        self.x * self.x + self.y * self.y + self.z * self.z
    }
}

/// Components stored in reverse, as scalars of its own type.
macro_rules! back {
    ($Back:ident $S:ident) => {
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct $Back<const N: usize>([$S; N]);
        impl<const N: usize> Default for $Back<N> {
            fn default() -> Self {
                $Back([$S::of(0.0); N])
            }
        }
        impl<const N: usize> Make for $Back<N> {
            fn make(c: &[f64]) -> Self {
                let mut a = [$S::of(0.0); N];
                for i in 0..N {
                    a[N - 1 - i] = <$S as From<f64>>::from(c[i]);
                }
                $Back(a)
            }
        }
        back!(@op $Back Add add);
        back!(@op $Back Sub sub);
        impl<const N: usize> Mul<$S> for $Back<N> {
            type Output = $Back<N>;
            fn mul(self, s: $S) -> $Back<N> {
                $Back(self.0.map(|x| x * s))
            }
        }
        impl<const N: usize> Mul<f64> for $Back<N> {
            type Output = $Back<N>;
            fn mul(self, s: f64) -> $Back<N> {
                $Back(self.0.map(|x| x * s))
            }
        }
        impl<const N: usize> IntoIterator for $Back<N> {
            type Item = $S;
            type IntoIter = std::array::IntoIter<$S, N>;
            fn into_iter(self) -> Self::IntoIter {
                // in storage order, which is not axis order
                self.0.into_iter()
            }
        }
        impl<const N: usize> Point for $Back<N> {
            type Scalar = $S;
            const DIM: usize = N;
            fn axis(&self, i: usize) -> $S {
                self.0[N - 1 - i]
            }
            fn squared_length(&self) -> $S {
                let mut r = $S::of(0.0);
                for i in 0..N {
                    let x = self.0[N - 1 - i];
                    r = r + x * x;
                }
                r
            }
        }
    };
    (@op $Back:ident $t:ident $f:ident) => {
        impl<const N: usize> $t for $Back<N> {
            type Output = $Back<N>;
            fn $f(self, o: $Back<N>) -> $Back<N> {
                let mut a = self.0;
                for i in 0..N {
                    a[i] = $t::$f(a[i], o.0[i]);
                }
                $Back(a)
            }
        }
    };
}
back!(Back S);
back!(BackW Wide);
back!(BackH Half);
macro_rules! apartop {
    ($t:ident $f:ident) => {
        impl<const N: usize> $t for Apart<N> {
            type Output = Apart<N>;
            fn $f(self, o: Apart<N>) -> Apart<N> {
                let mut a = self;
                a.first = $t::$f(a.first, o.first);
                for i in 0..N - 1 {
                    a.rest[i] = $t::$f(a.rest[i], o.rest[i]);
                }
                a
            }
        }
    };
}
apartop!(Add add);
apartop!(Sub sub);

impl<const N: usize> Make for Apart<N> {
    fn make(c: &[f64]) -> Self {
        let mut a = Apart { rest: [0.0; N], first: c[0] };
        for i in 1..N {
            a.rest[N - 1 - i] = c[i];
        }
        a
    }
}
impl<const N: usize> Mul<f64> for Apart<N> {
    type Output = Apart<N>;
    fn mul(self, s: f64) -> Apart<N> {
        Apart { rest: self.rest.map(|x| x * s), first: self.first * s }
    }
}
impl<const N: usize> IntoIterator for Apart<N> {
    type Item = [usize; 2];
    type IntoIter = std::array::IntoIter<[usize; 2], N>;
    fn into_iter(self) -> Self::IntoIter {
        [[7, 9]; N].into_iter()
    }
}
impl<const N: usize> Point for Apart<N> {
    type Scalar = f64;
    const DIM: usize = N;
    fn axis(&self, i: usize) -> f64 {
        if i == 0 {
            self.first
        } else {
            assert!(i < N);
            self.rest[N - 1 - i]
        }
    }
    fn squared_length(&self) -> f64 {
        (0..N).map(|i| self.axis(i) * self.axis(i)).sum()
    }
}
impl<const N: usize> Make for PointN<f64, N> {
    fn make(c: &[f64]) -> Self {
        let mut a = [0.0; N];
        a.copy_from_slice(&c[..N]);
        PointN::new(a)
    }
}

/// Aligned and padded to a kilobyte.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(256))]
pub struct Padded<const N: usize> {
    pad: [u8; 700],
    v: [f64; N],
    more: [u16; 5],
}
impl<const N: usize> Padded<N> {
    fn of(v: [f64; N]) -> Self {
        Padded { pad: [7; 700], v, more: [9; 5] }
    }
}
impl<const N: usize> Default for Padded<N> {
    fn default() -> Self {
        Self::of([0.0; N])
    }
}
impl<const N: usize> Make for Padded<N> {
    fn make(c: &[f64]) -> Self {
        let mut a = [0.0; N];
        a.copy_from_slice(&c[..N]);
        Self::of(a)
    }
}
impl<const N: usize> Add for Padded<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::of(std::array::from_fn(|i| self.v[i] + o.v[i]))
    }
}
impl<const N: usize> Sub for Padded<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::of(std::array::from_fn(|i| self.v[i] - o.v[i]))
    }
}
impl<const N: usize> Mul<f64> for Padded<N> {
    type Output = Self;
    fn mul(self, s: f64) -> Self {
        Self::of(self.v.map(|x| x * s))
    }
}
impl<const N: usize> IntoIterator for Padded<N> {
    type Item = Option<f64>;
    type IntoIter = std::array::IntoIter<Option<f64>, N>;
    fn into_iter(self) -> Self::IntoIter {
        [None; N].into_iter()
    }
}
impl<const N: usize> Point for Padded<N> {
    type Scalar = f64;
    const DIM: usize = N;
    fn axis(&self, i: usize) -> f64 {
        self.v[i]
    }
    fn squared_length(&self) -> f64 {
        self.v.iter().map(|x| x * x).sum()
    }
}

// ------------------------------------------------------------------ the observations
/// Labelled numbers, to be equal for every point type.
pub struct Log(Vec<(String, f64)>);
impl Log {
    fn s<X: Into<f64>>(&mut self, n: &str, x: X) {
        self.0.push((n.to_string(), x.into()));
    }
    fn b(&mut self, n: &str, x: bool) {
        self.0.push((n.to_string(), x as u8 as f64));
    }
    fn p<P: Point>(&mut self, n: &str, p: P)
    where
        P::Scalar: Into<f64>,
    {
        for d in 0..P::DIM {
            self.0.push((format!("{n} axis {d}"), p.axis(d).into()));
        }
    }
}

const TS: [f64; 7] = [0.0, 1.0, 0.5, 0.25, 0.9, 1.0 / 3.0, 0.013];

macro_rules! observe {
    ($name:ident, $p:ty, $dim:literal) => {
        fn $name(c: &[[f64; $dim]; 6], l: &mut Log) {
            type P = $p;
            type Sc = <P as Point>::Scalar;
            let p: Vec<P> = c.iter().map(|x| <P as Make>::make(x)).collect();
            let q = <P as Make>::make(&[0.35; $dim]);
            let sc = |x: f64| <Sc as From<f64>>::from(x);
            let line = LineSegment::new(p[0], p[1]);
            let quad = QuadraticBezier::new(p[0], p[1], p[2]);
            let cubic = CubicBezier::new(p[0], p[1], p[2], p[3]);
            let g2: Bezier<P, 2> = Bezier::new([p[0], p[1]]);
            let g4: Bezier<P, 4> = Bezier::new([p[0], p[1], p[2], p[3]]);
            let g6: Bezier<P, 6> = Bezier::new([p[0], p[1], p[2], p[3], p[4], p[5]]);
            for t in TS {
                let u = sc(t);
                l.p("line eval", line.eval(u));
                l.p("quadratic eval", quad.eval(u));
                l.p("quadratic eval_casteljau", quad.eval_casteljau(u));
                l.p("cubic eval", cubic.eval(u));
                l.p("cubic eval_casteljau", cubic.eval_casteljau(u));
                l.p("generic 2 eval", g2.eval(u));
                l.p("generic 4 eval", g4.eval(u));
                l.p("generic 6 eval", g6.eval(u));
                l.p("spline trait eval", Spline::eval(&g6, u));
                for d in 0..$dim {
                    l.s("line axis", line.axis(u, d));
                    l.s("quadratic axis", quad.axis(u, d));
                    l.s("cubic axis", cubic.axis(u, d));
                    l.s("quadratic dd", quad.dd(u, d));
                    l.s("cubic dd", cubic.dd(u, d));
                }
                let (a, b) = line.split(u);
                l.p("line split", a.eval(sc(0.4)));
                l.p("line split", b.eval(sc(0.4)));
                let (a, b) = quad.split(u);
                for x in a.control_points().into_iter().chain(b.control_points()) {
                    l.p("quadratic split", x);
                }
                let (a, b) = cubic.split(u);
                for x in a.control_points().into_iter().chain(b.control_points()) {
                    l.p("cubic split", x);
                }
                let (a, b) = g6.split(u);
                for x in a.control_points().into_iter().chain(b.control_points()) {
                    l.p("generic split", x);
                }
                for s in [BezierSegment::from(line), BezierSegment::from(quad), BezierSegment::from(cubic)] {
                    l.p("wrapped eval", s.eval::<f64>(u));
                    let (a, b) = s.split(u);
                    l.p("wrapped split", a.end());
                    l.p("wrapped split", b.start());
                    l.p("wrapped split", b.eval::<f64>(sc(0.3)));
                }
                l.p("quadratic derivative", quad.derivative().eval(u));
                l.p("cubic derivative", cubic.derivative().eval(u));
                l.p("generic derivative", g6.derivative().eval(u));
                l.p("generic 2 derivative", g2.derivative().eval(u));
            }
            l.p("line derivative", line.derivative());
            for n in [1usize, 4, 17] {
                l.s("quadratic arclen", quad.arclen(n));
                l.s("cubic arclen", cubic.arclen(n));
                l.s("generic arclen", g4.arclen(n));
                l.s("generic arclen", g6.arclen(n));
            }
            for x in [q, p[0], p[3], p[5]] {
                l.s("line distance", line.distance_to_point(x));
                l.s("quadratic distance", quad.distance_to_point(x));
                l.s("cubic distance", cubic.distance_to_point(x));
                l.s("generic distance", g4.distance_to_point(x));
                l.s("generic distance", g6.distance_to_point(x));
            }
            for (a, b) in line.bounding_box() {
                l.s("line box", a);
                l.s("line box", b);
            }
            for (a, b) in quad.bounding_box() {
                l.s("quadratic box", a);
                l.s("quadratic box", b);
            }
            for (a, b) in cubic.bounding_box() {
                l.s("cubic box", a);
                l.s("cubic box", b);
            }
            for tol in [1e-9, 1.0137e-3, 0.4137, 2.0617, 1000.7] {
                l.b(&format!("quadratic is_linear({tol})"), quad.is_linear(sc(tol)));
                l.b(&format!("cubic is_linear({tol})"), cubic.is_linear(sc(tol)));
                l.b(&format!("quadratic is_a_point({tol})"), quad.is_a_point(sc(tol)));
                l.b(&format!("cubic is_a_point({tol})"), cubic.is_a_point(sc(tol)));
                l.b(&format!("wrapped is_linear({tol})"), BezierSegment::from(cubic).is_linear(sc(tol)));
            }
            l.p("baseline", cubic.baseline().eval(sc(0.5)));
            l.p("baseline", quad.baseline().eval(sc(0.5)));
            // longer curves over the same points
            let many: Vec<P> = (0..40).map(|i| p[(i * 5 + i / 6) % 6]).collect();
            macro_rules! gen {
                ($n:tt) => {
                    let mut a = [P::default(); $n];
                    a.copy_from_slice(&many[..$n]);
                    let g: Bezier<P, $n> = Bezier::new(a);
                    for t in [0.0, 1.0, 0.3, 0.75] {
                        let u = sc(t);
                        l.p(concat!("generic ", $n, " eval"), g.eval(u));
                        let (a, b) = g.split(u);
                        l.p("generic split", a.eval(sc(0.4)));
                        l.p("generic split", b.control_points()[$n - 1]);
                        l.p("generic split", b.eval(sc(0.4)));
                        l.p("generic split", b.control_points()[$n / 2]);
                        // derivatives grow with the degree: in units of it
                        l.p("generic derivative", g.derivative().eval(u) * sc(1.0 / $n as f64));
                    }
                    l.s("generic arclen", g.arclen(5));
                    for x in [q, p[2]] {
                        l.s("generic distance", g.distance_to_point(x));
                    }
                    for x in g {
                        l.p("control point", x);
                    }
                };
            }
            gen!(3);
            gen!(5);
            gen!(9);
            gen!(17);
            gen!(33);
            // B-splines of every degree over several knot vectors
            let kv: [[f64; 11]; 4] = [
                [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0],
                [0.0, 0.0, 0.0, 1.0, 1.5, 4.0, 4.0, 4.0, 4.0, 4.0, 4.0],
                [-1.0, -0.5, 0.125, 0.125, 0.75, 0.75, 2.0, 2.0, 3.0, 3.5, 3.5],
                [2.0, 2.0, 2.0, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 4.75, 6.0],
            ];
            macro_rules! sp {
                ($k:tt $cc:tt $d:tt) => {
                    for kn in &kv {
                        let mut k = [sc(0.0); $k];
                        for (a, b) in k.iter_mut().zip(kn) {
                            *a = sc(*b);
                        }
                        let mut cp = [P::default(); $cc];
                        cp.copy_from_slice(&p[..$cc]);
                        let s = BSpline::<P, $k, $cc, $d>::new(k, cp).unwrap();
                        let (a, b) = s.knot_domain();
                        l.s("domain", a);
                        l.s("domain", b);
                        // exact in single precision too
                        for i in -1..=18 {
                            let t = a + (b - a) * sc(i as f64 / 16.0);
                            match s.eval(t) {
                                Ok(x) => l.p(concat!("spline of degree ", $d), x),
                                Err(_) => l.b("spline error", true),
                            }
                        }
                        for x in kn {
                            match s.eval(sc(*x)) {
                                Ok(x) => l.p(concat!("spline of degree ", $d), x),
                                Err(_) => l.b("spline error", true),
                            }
                        }
                        l.s("spline arclen", s.arclen(13));
                        sp!(@der s l $d);
                        for x in s.knots() {
                            l.s("knot", *x);
                        }
                        for x in s.control_points() {
                            l.p("control point", *x);
                        }
                    }
                };
                (@der $s:ident $l:ident 0) => {};
                (@der $s:ident $l:ident $d:tt) => {
                    let ds = $s.derivative();
                    let (a, b) = ds.knot_domain();
                    for i in 0..=8 {
                        match ds.eval(a + (b - a) * sc(i as f64 / 8.0)) {
                            Ok(x) => $l.p("spline derivative", x),
                            Err(_) => $l.b("spline error", true),
                        }
                    }
                };
            }
            macro_rules! long {
                ($k:tt $cc:tt $d:tt) => {
                    let mut k = [sc(0.0); $k];
                    for (i, a) in k.iter_mut().enumerate() {
                        // every third knot is double
                        *a = sc((i - i / 3) as f64 * 0.5 - 3.0);
                    }
                    let mut cp = [P::default(); $cc];
                    cp.copy_from_slice(&many[..$cc]);
                    let s = BSpline::<P, $k, $cc, $d>::new(k, cp).unwrap();
                    let ds = s.derivative();
                    let (a, b) = s.knot_domain();
                    l.s("domain", a);
                    l.s("domain", b);
                    for i in 0..=32 {
                        let t = a + (b - a) * sc(i as f64 / 32.0);
                        match (s.eval(t), ds.eval(t)) {
                            (Ok(x), Ok(y)) => {
                                l.p("long spline", x);
                                l.p("long spline derivative", y * sc(1.0 / 16.0));
                            }
                            _ => l.b("spline error", true),
                        }
                    }
                    l.s("spline arclen", s.arclen(7));
                };
            }
            long!(16 12 3);
            long!(13 11 1);
            long!(16 9 6);
            long!(43 40 2);
            sp!(5 4 0);
            sp!(7 5 1);
            sp!(9 6 2);
            sp!(9 5 3);
            sp!(11 6 4);
        }
    };
}
observe!(ref3, PointN<f64, 3>, 3);
observe!(ref1, PointN<f64, 1>, 1);
observe!(ref2, PointN<f64, 2>, 2);
observe!(ref5, PointN<f64, 5>, 5);
observe!(named3, Named, 3);
observe!(back1, Back<1>, 1);
observe!(back2, Back<2>, 2);
observe!(back3, Back<3>, 3);
observe!(back5, Back<5>, 5);
observe!(wide1, BackW<1>, 1);
observe!(wide2, BackW<2>, 2);
observe!(wide3, BackW<3>, 3);
observe!(half1, BackH<1>, 1);
observe!(half2, BackH<2>, 2);
observe!(half3, BackH<3>, 3);
observe!(apart2, Apart<2>, 2);
observe!(apart3, Apart<3>, 3);
observe!(padded1, Padded<1>, 1);
observe!(padded2, Padded<2>, 2);
observe!(padded4, Padded<4>, 4);
observe!(ref4, PointN<f64, 4>, 4);
observe!(back4, Back<4>, 4);
observe!(ref9, PointN<f64, 9>, 9);
observe!(back9, Back<9>, 9);
observe!(apart9, Apart<9>, 9);
observe!(apart5, Apart<5>, 5);

fn tie<const DIM: usize>(c: &[[f64; DIM]; 6], rel: f64) -> bool {
    let s = c.iter().flatten().fold(1.0f64, |a, x| a.max(x.abs()));
    [3, 4, 6].iter().any(|n| {
        let cols: Vec<Vec<f64>> = (0..DIM).map(|d| c[..*n].iter().map(|p| p[d]).collect()).collect();
        [[0.35; DIM], c[0], c[3], c[5]].iter().any(|q| crate::shapes::coarse_tie(&cols, q, rel * s * s))
    })
}

fn compare<const DIM: usize>(c: &[[f64; DIM]; 6], r: fn(&[[f64; DIM]; 6], &mut Log), others: &[(&'static str, fn(&[[f64; DIM]; 6], &mut Log))], ctx: &mut Ctx) -> Res {
    let s = c.iter().flatten().fold(1.0f64, |a, x| a.max(x.abs()));
    let mut want = Log(vec![]);
    r(c, &mut want);
    ctx.state();
    for (name, f) in others {
        let mut got = Log(vec![]);
        f(c, &mut got);
        ctx.state();
        need!(got.0.len() == want.0.len(), "{name}: {} observations instead of {}", got.0.len(), want.0.len());
        for (a, b) in got.0.iter().zip(&want.0) {
            ctx.outcome(b.1.to_bits());
            let half = name.starts_with("half");
            let rel = if half { 1e-4 } else { REL };
            if half && b.0.ends_with("(0.000000001)") {
                // beyond single precision
                continue;
            }
            let same = if half && b.0.ends_with("distance") {
                (a.1 * a.1 - b.1 * b.1).abs() <= rel * s * s
            } else if half {
                (a.1 - b.1).abs() <= rel * s
            } else {
                false
            };
            let same = same || a.1 == b.1 || !half && (a.1 - b.1).abs() <= 64.0 * REL * s || a.1.is_nan() && b.1.is_nan();
            if !same && a.0 == b.0 && b.0.ends_with("distance") && tie(c, rel) {
                // the search may legitimately refine around either of two equally good samples
                ctx.class("distance tie");
                continue;
            }
            need!(a.0 == b.0 && same, "control points {c:?}: {} is {:?} with {name} and {:?} with PointN", b.0, a.1, b.1);
        }
        ctx.trans(got.0.len() as u64 * 2);
        ctx.class(name);
        ctx.trace();
    }
    ctx.sample(|| format!("{c:?}: {} observations", want.0.len()));
    Ok(())
}

fn sp<const DIM: usize>(al: Vec<f64>, n: usize, r: fn(&[[f64; DIM]; 6], &mut Log), others: Vec<(&'static str, fn(&[[f64; DIM]; 6], &mut Log))>) -> Suite {
    let names: Vec<&'static str> = others.iter().map(|o| o.0).collect();
    let must = names.clone();
    let total = ipow(al.len(), n);
    let mut s = suite(
        format!("foreign-{DIM}d-a{}-n{n}", al.len()),
        format!("all {n}-point columns over {al:?} on each of {DIM} axes (the other control points fixed); {names:?} against PointN, every operation"),
        total,
        move |i, ctx| {
            let mut c = [[0.0; DIM]; 6];
            for d in 0..DIM {
                let mut dg = Digits((i + d as u64 * (total / 3 + 7)) % total);
                for (k, p) in c.iter_mut().enumerate() {
                    p[d] = if k < n { al[dg.take(al.len())] } else { 1.3 * k as f64 - 2.0 + d as f64 * 0.7 };
                }
            }
            compare(&c, r, &others, ctx)
        },
    );
    s.must = must;
    s
}

fn special<const DIM: usize>(k: usize, n: usize, r: fn(&[[f64; DIM]; 6], &mut Log), others: Vec<(&'static str, fn(&[[f64; DIM]; 6], &mut Log))>) -> Suite {
    let names: Vec<&'static str> = others.iter().map(|o| o.0).collect();
    suite(
        format!("special-{DIM}d-k{k}-n{n}"),
        format!("all {n}-tuples over {k} points in special position in {DIM} dimensions (the other control points fixed); {names:?} against PointN, every operation"),
        ipow(k, n),
        move |i, ctx| {
            let mut dg = Digits(i);
            let mut c = [[0.0; DIM]; 6];
            for (j, p) in c.iter_mut().enumerate() {
                let t = crate::shapes::template::<DIM>(if j < n { dg.take(k) } else { j + 2 });
                for d in 0..DIM {
                    p[d] = t[d] as f64;
                }
            }
            compare(&c, r, &others, ctx)
        },
    )
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let al = [0.0, 1.0, -2.5, 0.3, 7.0, 1.0 / 3.0, -100.0];
    let a = |q: usize, t: usize| al[..tier.pick(2, q, t)].to_vec();
    let k = tier.pick(3, 6, 13);
    let m = tier.pick(2, 3, 5);
    vec![
        sp::<1>(a(6, 7), 4, ref1, vec![("newtype scalar, reversed storage (1d)", back1), ("wide scalar (1d)", wide1), ("half-size scalar (1d)", half1), ("padded (1d)", padded1)]),
        sp::<2>(a(6, 7), 4, ref2, vec![("newtype scalar, reversed storage (2d)", back2), ("split storage (2d)", apart2), ("wide scalar (2d)", wide2), ("half-size scalar (2d)", half2), ("padded (2d)", padded2)]),
        sp::<3>(a(5, 7), 4, ref3, vec![("named fields", named3), ("newtype scalar, reversed storage (3d)", back3), ("split storage (3d)", apart3), ("wide scalar (3d)", wide3), ("half-size scalar (3d)", half3)]),
        sp::<5>(a(4, 7), 4, ref5, vec![("newtype scalar, reversed storage (5d)", back5), ("split storage (5d)", apart5)]),
        sp::<3>(a(3, 4), 6, ref3, vec![("named fields", named3), ("newtype scalar, reversed storage (3d)", back3), ("split storage (3d)", apart3), ("wide scalar (3d)", wide3), ("half-size scalar (3d)", half3)]),
        special::<1>(k, 4, ref1, vec![("newtype scalar, reversed storage (1d)", back1), ("wide scalar (1d)", wide1), ("padded (1d)", padded1)]),
        special::<2>(k, 4, ref2, vec![("split storage (2d)", apart2), ("wide scalar (2d)", wide2), ("padded (2d)", padded2)]),
        special::<3>(k, 4, ref3, vec![("named fields", named3), ("split storage (3d)", apart3), ("wide scalar (3d)", wide3)]),
        special::<4>(k, 4, ref4, vec![("newtype scalar, reversed storage (4d)", back4), ("padded (4d)", padded4)]),
        special::<9>(k, 4, ref9, vec![("newtype scalar, reversed storage (9d)", back9), ("split storage (9d)", apart9)]),
        special::<3>(m, 6, ref3, vec![("named fields", named3), ("split storage (3d)", apart3), ("wide scalar (3d)", wide3)]),
    ]
}
