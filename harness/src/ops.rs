//! Every operation of the library as a numbered, allocation-free step on one world of objects.
use crate::core::R;
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

/// Parameters of one step.
#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub t: R,
    pub n: usize,
    pub tol: R,
}

/// What a step returned: numbers, in a fixed buffer (no heap).
pub struct Out {
    /// only name the steps, do not perform them
    pub dry: bool,
    pub name: &'static str,
    pub n: usize,
    pub v: [R; 2048],
}
impl Out {
    pub fn new() -> Out {
        Out { name: "", n: 0, dry: false, v: [0.0; 2048] }
    }
    #[inline]
    pub fn s(&mut self, x: R) {
        self.v[self.n] = x;
        self.n += 1;
    }
    pub fn b(&mut self, x: bool) {
        self.s(if x { 1.0 } else { 0.0 })
    }
    pub fn p<const D: usize>(&mut self, p: PointN<R, D>) {
        for d in 0..D {
            self.s(p.axis(d));
        }
    }
    pub fn e(&mut self, e: BSplineError) {
        self.s(match e {
            BSplineError::TooFewControlPoints => 101.0,
            BSplineError::TooFewKnots => 102.0,
            BSplineError::TooManyKnots => 103.0,
            BSplineError::DecreasingKnots => 104.0,
            BSplineError::KnotDomainViolation => 105.0,
            _ => 106.0,
        })
    }
    pub fn r<const D: usize>(&mut self, r: Result<PointN<R, D>, BSplineError>) {
        match r {
            Ok(p) => self.p(p),
            Err(e) => self.e(e),
        }
    }
    pub fn values(&self) -> &[R] {
        &self.v[..self.n]
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in self.values() {
            h = (h ^ x.to_bits() as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
        }
        h ^ self.n as u64
    }
}
struct Fix {
    b: [u8; 256],
    n: usize,
}
impl core::fmt::Write for Fix {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.bytes() {
            if self.n < 256 {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}
impl Out {
    pub fn text(&mut self, e: BSplineError) {
        use core::fmt::Write;
        let mut f = Fix { b: [0; 256], n: 0 };
        let _ = write!(f, "{}", e);
        self.s(f.n as R);
        for c in &f.b[..f.n] {
            self.s(*c as R);
        }
    }
}

/// Control points and knots a world is built from.
#[derive(Clone, Debug)]
pub struct Data<const DIM: usize> {
    pub ctrl: [[R; DIM]; 12],
    pub query: [R; DIM],
    /// gaps between knots; knot i is first + sum of the gaps before it
    pub first: R,
    pub gaps: [R; 20],
}
impl<const DIM: usize> Data<DIM> {
    pub fn knots<const K: usize>(&self) -> [R; K] {
        let mut k = [self.first; K];
        for i in 1..K {
            k[i] = k[i - 1] + self.gaps[(i - 1) % 20];
        }
        k
    }
    pub fn points<const N: usize>(&self) -> [PointN<R, DIM>; N] {
        let mut a = [PointN::new([0.0; DIM]); N];
        for i in 0..N {
            a[i] = PointN::new(self.ctrl[i % 12]);
        }
        a
    }
}

macro_rules! world {
    ($name:ident, $dim:literal ; $( ($sp:ident $k:tt $c:tt $d:tt $($der:ident)?) )* ; $( ($bz:ident $n:tt) )*) => {
        #[derive(Clone)]
        pub struct $name {
            pub data: Data<$dim>,
            pub query: PointN<R, $dim>,
            pub line: LineSegment<PointN<R, $dim>>,
            pub quad: QuadraticBezier<PointN<R, $dim>>,
            pub cubic: CubicBezier<PointN<R, $dim>>,
            pub segs: [BezierSegment<PointN<R, $dim>>; 3],
            $( pub $bz: Bezier<PointN<R, $dim>, $n>, )*
            $( pub $sp: BSpline<PointN<R, $dim>, $k, $c, $d>, )*
        }
        impl $name {
            pub const DIM: usize = $dim;
            pub fn new(data: Data<$dim>) -> $name {
                let p: [PointN<R, $dim>; 4] = data.points();
                let line = LineSegment::new(p[0], p[1]);
                let quad = QuadraticBezier::new(p[0], p[1], p[2]);
                let cubic = CubicBezier::new(p[0], p[1], p[2], p[3]);
                $name {
                    query: PointN::new(data.query),
                    line, quad, cubic,
                    segs: [line.into(), quad.into(), cubic.into()],
                    $( $bz: Bezier::new(data.points()), )*
                    $( $sp: BSpline::new(data.knots(), data.points()).unwrap(), )*
                    data,
                }
            }
            pub fn dup(&self, copy: bool) -> $name {
                if !copy {
                    return self.clone();
                }
                $name { data: self.data.clone(), query: self.query, line: self.line, quad: self.quad, cubic: self.cubic, segs: self.segs, $( $bz: self.$bz, )* $( $sp: self.$sp.clone(), )* }
            }
            /// everything an observer can see of the objects
            pub fn fingerprint(&self) -> u64 {
                let mut o = Out::new();
                let mut h = 0u64;
                for s in &self.segs {
                    o.p(s.start());
                    o.p(s.end());
                }
                for p in self.quad.control_points() { o.p(p); }
                for p in self.cubic.control_points() { o.p(p); }
                o.p(self.line.eval(0.0)); o.p(self.line.eval(1.0));
                o.p(self.query);
                $( o.n = o.n.min(400); h = h.rotate_left(7) ^ o.hash(); o.n = 0; for p in self.$bz.control_points() { o.p(p); } )*
                $( h = h.rotate_left(7) ^ o.hash(); o.n = 0;
                   for p in self.$sp.control_points() { o.p(*p); }
                   h = h.rotate_left(7) ^ o.hash(); o.n = 0;
                   for k in self.$sp.knots() { o.s(*k); } )*
                h.rotate_left(7) ^ o.hash()
            }
            /// Performs step number `op`; false when there is no such step.
            pub fn step(&self, op: usize, q: Par, o: &mut Out) -> bool {
                let mut k = 0usize;
                o.n = 0;
                macro_rules! op {
                    ($what:expr, $body:block) => {
                        if op == k {
                            o.name = $what;
                            if o.dry {
                                return true;
                            }
                            $body
                            return true;
                        }
                        #[allow(unused_assignments)]
                        { k += 1; }
                    };
                }
                let t = q.t;
                op!("line new, eval", { o.p(LineSegment::new(self.line.eval(0.0), self.line.eval(1.0)).eval(t)) });
                op!("line eval", { o.p(self.line.eval(t)) });
                op!("line axis", { for d in 0..$dim { o.s(self.line.axis(t, d)) } });
                op!("line split", { let (a, b) = self.line.split(t); o.p(a.eval(0.25)); o.p(b.eval(0.25)); o.p(a.eval(1.0)); o.p(b.eval(1.0)); });
                op!("line derivative", { o.p(self.line.derivative()) });
                op!("line bounding box", { for (a, b) in self.line.bounding_box() { o.s(a); o.s(b); } });
                op!("line distance", { o.s(self.line.distance_to_point(self.query)) });
                op!("line distance to its end", { o.s(self.line.distance_to_point(self.line.eval(1.0))) });
                macro_rules! curve {
                    ($w:literal, $cv:ident) => {
                        op!(concat!($w, " eval"), { o.p(self.$cv.eval(t)) });
                        op!(concat!($w, " eval_casteljau"), { o.p(self.$cv.eval_casteljau(t)) });
                        op!(concat!($w, " axis"), { for d in 0..$dim { o.s(self.$cv.axis(t, d)) } });
                        op!(concat!($w, " split"), { let (a, b) = self.$cv.split(t); for p in a.control_points() { o.p(p) } for p in b.control_points() { o.p(p) } });
                        op!(concat!($w, " derivative"), { o.p(self.$cv.derivative().eval(t)); o.p(self.$cv.derivative().eval(0.0)); });
                        op!(concat!($w, " dd"), { for d in 0..$dim { o.s(self.$cv.dd(t, d)) } });
                        op!(concat!($w, " arclen"), { o.s(self.$cv.arclen(q.n)) });
                        op!(concat!($w, " distance"), { o.s(self.$cv.distance_to_point(self.query)) });
                        op!(concat!($w, " bounding box"), { for (a, b) in self.$cv.bounding_box() { o.s(a); o.s(b); } });
                        op!(concat!($w, " is_linear"), { o.b(self.$cv.is_linear(q.tol)) });
                        op!(concat!($w, " is_a_point"), { o.b(self.$cv.is_a_point(q.tol)) });
                        op!(concat!($w, " baseline"), { o.p(self.$cv.baseline().eval(t)) });
                        op!(concat!($w, " control points"), { for p in self.$cv.control_points() { o.p(p) } });
                    };
                }
                curve!("quadratic", quad);
                curve!("cubic", cubic);
                op!("quadratic second derivative", { o.p(self.quad.derivative().derivative()) });
                op!("cubic second derivative", { o.p(self.cubic.derivative().derivative().eval(t)) });
                for s in &self.segs {
                    op!("wrapped eval", { o.p(s.eval::<R>(t)) });
                    op!("wrapped split", { let (a, b) = s.split(t); o.p(a.start()); o.p(a.end()); o.p(b.start()); o.p(b.end()); o.p(b.eval::<R>(0.5)); });
                    op!("wrapped ends", { o.p(s.start()); o.p(s.end()) });
                    op!("wrapped is_linear", { o.b(s.is_linear(q.tol)) });
                    op!("wrapped baseline", { o.p(s.baseline().eval(t)) });
                }
                $(
                    op!(concat!("generic Bezier of ", $n, " points: eval"), { o.p(self.$bz.eval(t)) });
                    op!(concat!("generic Bezier of ", $n, " points: spline trait"), { o.p(Spline::eval(&self.$bz, t)) });
                    op!(concat!("generic Bezier of ", $n, " points: split"), { let (a, b) = self.$bz.split(t); for p in a.control_points() { o.p(p) } for p in b.control_points() { o.p(p) } });
                    op!(concat!("generic Bezier of ", $n, " points: derivative"), { o.p(self.$bz.derivative().eval(t)) });
                    op!(concat!("generic Bezier of ", $n, " points: arclen"), { o.s(self.$bz.arclen(q.n)) });
                    op!(concat!("generic Bezier of ", $n, " points: distance"), { o.s(self.$bz.distance_to_point(self.query)) });
                    op!(concat!("generic Bezier of ", $n, " points: iteration"), { for p in self.$bz.clone() { o.p(p) } });
                    op!(concat!("generic Bezier of ", $n, " points: new, edit, eval"), {
                        let mut b: Bezier<PointN<R, $dim>, $n> = Bezier::new(self.data.points());
                        for p in &mut b { *p = *p * 0.5; }
                        o.p(b.eval(t));
                    });
                )*
                $(
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): eval"), {
                        let (a, b) = self.$sp.knot_domain();
                        o.r(self.$sp.eval(a + (b - a) * t));
                    });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): eval at the raw parameter"), { o.r(self.$sp.eval(t)) });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): eval at the end"), { o.r(self.$sp.eval(self.$sp.knot_domain().1)) });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): eval at the knots"), {
                        for x in self.$sp.knots() { o.r(self.$sp.eval(*x)) }
                    });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): domain"), { let (a, b) = self.$sp.knot_domain(); o.s(a); o.s(b); });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): arclen"), { o.s(self.$sp.arclen(q.n)) });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): knots and control points"), {
                        for k in self.$sp.knots() { o.s(*k) }
                        for p in self.$sp.control_points() { o.p(*p) }
                    });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): new"), {
                        match BSpline::<PointN<R, $dim>, $k, $c, $d>::new(self.data.knots(), self.data.points()) {
                            Ok(s) => { let (a, b) = s.knot_domain(); o.r(s.clone().eval(a + (b - a) * t)) }
                            Err(e) => o.e(e),
                        }
                    });
                    op!(concat!("B-spline of degree ", $d, " (", $c, " points): rejected knots"), {
                        let mut k: [R; $k] = self.data.knots();
                        k.reverse();
                        k[0] = k[0] + 1.0;
                        match BSpline::<PointN<R, $dim>, $k, $c, $d>::new(k, self.data.points()) {
                            Ok(_) => o.s(1.0),
                            Err(e) => { o.text(e); }
                        }
                    });
                    $( op!(concat!("B-spline of degree ", $d, " (", $c, " points): ", stringify!($der)), {
                        let s = self.$sp.derivative();
                        let (a, b) = s.knot_domain();
                        o.s(a); o.s(b);
                        o.r(s.eval(a + (b - a) * t));
                        for p in s.control_points() { o.p(*p) }
                    }); )?
                )*
                op!("too few control points", { match BSpline::<PointN<R, $dim>, 4, 2, 2>::new(self.data.knots(), self.data.points()) { Ok(_) => o.s(1.0), Err(e) => o.text(e) } });
                op!("too few knots", { match BSpline::<PointN<R, $dim>, 5, 4, 2>::new(self.data.knots(), self.data.points()) { Ok(_) => o.s(1.0), Err(e) => o.text(e) } });
                op!("too many knots", { match BSpline::<PointN<R, $dim>, 9, 4, 2>::new(self.data.knots(), self.data.points()) { Ok(_) => o.s(1.0), Err(e) => o.text(e) } });
                op!("point arithmetic", {
                    let (a, b) = (self.query, self.line.eval(1.0));
                    o.p(a + b); o.p(a - b); o.p(a * t); o.p(a + t); o.p(a - t);
                    o.b(a == b); o.b(a == a); o.s(b.squared_length());
                    o.p(PointN::<R, $dim>::default());
                });
                op!("point iteration", {
                    let mut a = self.query;
                    for x in a { o.s(x) }
                    for x in &mut a { *x = *x * 0.5 }
                    o.p(a);
                });
                o.n = k;
                false
            }
            /// How many steps there are (none of them is performed).
            pub fn ops(&self) -> usize {
                let mut o = Out::new();
                self.step(usize::MAX, Par { t: 0.5, n: 1, tol: 0.1 }, &mut o);
                o.n
            }
        }
    };
}
world!(W1, 1; (s0 5 4 0) (s1 6 4 1 derivative) (s2 8 5 2 derivative) (s3 10 6 3 derivative) (s4 12 7 4 derivative) (s7 18 10 7 derivative); (b2 2) (b3 3) (b5 5) (b9 9) (b17 17));
world!(W2, 2; (s0 5 4 0) (s1 6 4 1 derivative) (s2 8 5 2 derivative) (s3 10 6 3 derivative) (s4 12 7 4 derivative) (s7 18 10 7 derivative); (b2 2) (b3 3) (b5 5) (b9 9) (b17 17));
world!(W3, 3; (s0 5 4 0) (s1 6 4 1 derivative) (s2 8 5 2 derivative) (s3 10 6 3 derivative) (s4 12 7 4 derivative) (s7 18 10 7 derivative); (b2 2) (b3 3) (b5 5) (b9 9) (b17 17));
world!(W8, 8; (s0 5 4 0) (s1 6 4 1 derivative) (s2 8 5 2 derivative) (s3 10 6 3 derivative) (s4 12 7 4 derivative) (s7 18 10 7 derivative); (b2 2) (b3 3) (b5 5) (b9 9) (b17 17));

// long curves: degrees up to 32, and beyond
world!(WX, 2; (x1 32 30 1 derivative) (x2 24 21 2 derivative) (x3 44 40 3 derivative) (x5 22 16 5 derivative) (x6 14 7 6 derivative) (x8 21 12 8 derivative) (x9 20 10 9 derivative) (x10 25 14 10 derivative) (x12 30 17 12 derivative); (b4 4) (b6 6) (b7 7) (b8 8) (b10 10) (b11 11) (b12 12) (b13 13) (b14 14) (b15 15) (b16 16) (b18 18) (b20 20) (b24 24) (b31 31) (b32 32) (b33 33));
world!(WY, 1; (y0 101 100 0) (y1 259 257 1 derivative) (y2 133 130 2 derivative) (y3 70 66 3 derivative) (y16 65 48 16 derivative); (b48 48) (b64 64) (b65 65) (b100 100));
world!(WZ, 6; (z2 11 8 2 derivative) (z3 13 9 3 derivative); (b4 4) (b6 6) (b11 11));

// further dimensions
world!(W4, 4; (s2 8 5 2 derivative) (s3 10 6 3 derivative); (b2 2) (b4 4));
world!(W5, 5; (s1 6 4 1 derivative) (s3 10 6 3 derivative); (b3 3) (b6 6));
world!(W7, 7; (s2 8 5 2 derivative) (s3 8 4 3 derivative); (b4 4) (b5 5));
world!(W9, 9; (s2 8 5 2 derivative) (s3 10 6 3 derivative); (b3 3) (b5 5));

pub trait World {
    fn step(&self, op: usize, q: Par, o: &mut Out) -> bool;
    fn ops(&self) -> usize;
    fn fingerprint(&self) -> u64;
    /// clones (or copies, where there is a choice and `copy` is set) of every object
    fn dup(&self, copy: bool) -> Self
    where
        Self: Sized;
}
macro_rules! w { ($($t:ident)*) => { $( impl World for $t {
    fn step(&self, op: usize, q: Par, o: &mut Out) -> bool { $t::step(self, op, q, o) }
    fn ops(&self) -> usize { $t::ops(self) }
    fn fingerprint(&self) -> u64 { $t::fingerprint(self) }
    fn dup(&self, copy: bool) -> $t { $t::dup(self, copy) }
} )* } }
w!(W1 W2 W3 W8 WX WY WZ W4 W5 W7 W9);
