BUGS = []
def bug(id, property, needs, what, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo, **kw))

H = '''
#![allow(unused)]
use stroke::bezier_segment::BezierSegment;
use stroke::*;
fn pt<const N: usize>(a: [f64; N]) -> PointN<f64, N> { PointN::new(a) }
fn fail(s: String) -> ! { println!("BROKEN: {s}"); std::process::exit(1) }
fn near(what: &str, a: f64, b: f64, tol: f64) { if !((a - b).abs() <= tol) { fail(format!("{what}: {a} vs {b}")) } }
'''

bug('c01-quad-axis-snap', 'C01', 'single-axis sampling of a quadratic curve at a parameter in (0.999, 1)',
    'QuadraticBezier::axis snaps to the end point close to t = 1',
    [('src/quadratic_bezier.rs', '''        self.start.axis(axis) * one_t2
''', '''        // the tail of the curve is indistinguishable from its end point
        if one_t2 < P::Scalar::from(1e-6) {
            return self.end.axis(axis);
        }

        self.start.axis(axis) * one_t2
''')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([0.0, 1.0]), pt([1.0, -3.0]), pt([4.0, 2.0]));
    for k in 0..=10000 {
        let t = k as f64 / 10000.0;
        for a in 0..2 {
            let e: Vec<f64> = c.eval_casteljau(t).into_iter().collect();
            near("axis", c.axis(t, a), e[a], 1e-12);
        }
    }
}
''')

bug('c01-bezier-levels', 'C01', 'a generic curve with more than 12 control points',
    'Bezier::eval stops the De Casteljau triangle after 12 levels, so high degree curves are cut short',
    [('src/bezier.rs', '        for i in 1..=p.len() {\n            for j in 0..p.len() - i {', '        for i in 1..=p.len().min(12) {\n            for j in 0..p.len() - i {')], H + '''
fn check<const N: usize>() {
    let mut c = [pt([0.0]); N];
    for i in 0..N { c[i] = pt([i as f64]); }
    let b = Bezier::new(c);
    for k in 0..=64 {
        let t = k as f64 / 64.0;
        let v: f64 = b.eval(t).into_iter().next().unwrap();
        near("eval", v, t * (N - 1) as f64, 1e-9);
    }
}
fn main() { check::<2>(); check::<5>(); check::<9>(); check::<14>(); check::<20>(); }
''')

bug('c02-segment-straight-split', 'C02', 'an enum-wrapped cubic whose control points are collinear but not evenly spaced',
    'BezierSegment::split takes a shortcut for straight cubics and forgets their parametrisation',
    [('src/bezier_segment.rs', '''            BezierSegment::Cubic(segment) => {
                let (a, b) = segment.split(t.into());
''', '''            BezierSegment::Cubic(segment) => {
                // a straight curve is split along its baseline
                if segment.is_linear(EPSILON.into()) {
                    let third = |l: LineSegment<P>| CubicBezier {
                        start: l.start,
                        ctrl1: l.eval(P::Scalar::from(1.0 / 3.0)),
                        ctrl2: l.eval(P::Scalar::from(2.0 / 3.0)),
                        end: l.end,
                    };
                    let (a, b) = segment.baseline().split(t.into());
                    return (BezierSegment::Cubic(third(a)), BezierSegment::Cubic(third(b)));
                }
                let (a, b) = segment.split(t.into());
''')], H + '''
fn main() {
    for (x1, x2) in [(1.0, 2.0), (0.5, 2.0), (1.5, 1.75)] {
        let c = CubicBezier::new(pt([0.0, 0.0]), pt([x1, x1]), pt([x2, x2]), pt([3.0, 3.0]));
        let (a, b) = c.split(0.25);
        let (sa, sb) = BezierSegment::from(c).split(0.25);
        for (u, v) in [(a, sa), (b, sb)] {
            for k in 0..=20 {
                let t = k as f64 / 20.0;
                let d = (u.eval(t) - v.eval::<f64>(t)).squared_length();
                near("split", d, 0.0, 1e-20);
            }
        }
    }
}
''')

bug('c03-generic-split-at-one', 'C03', 'splitting a generic curve exactly at t = 1',
    'Bezier::split returns the whole curve twice at t = 1 instead of the curve and its end point',
    [('src/bezier.rs', '''        // start with a copy of the original control points for now
''', '''        // nothing is left to split at the end of the curve
        if t == P::Scalar::from(1.0) {
            return (*self, *self);
        }
        // start with a copy of the original control points for now
''')], H + '''
fn main() {
    let c = Bezier::new([pt([0.0, 1.0]), pt([1.0, 3.0]), pt([2.0, -1.0]), pt([3.0, 4.0]), pt([5.0, 5.0])]);
    for t in [0.0, 0.25, 0.5, 1.0] {
        let (a, b) = c.split(t);
        for k in 0..=16 {
            let s = k as f64 / 16.0;
            near("left", (a.eval(s) - c.eval(t * s)).squared_length(), 0.0, 1e-20);
            near("right", (b.eval(s) - c.eval(t + (1.0 - t) * s)).squared_length(), 0.0, 1e-20);
        }
    }
}
''')

bug('c03-line-split-degenerate', 'C03', 'splitting a very short segment (under about 1e-8)',
    'LineSegment::split does not move the split point on segments it considers degenerate',
    [('src/line.rs', '''        // compute the split point by interpolation
''', '''        if (self.end - self.start).squared_length() < EPSILON.into() {
            let start = self.start;
            return (LineSegment { start, end: start }, *self);
        }
        // compute the split point by interpolation
''')], H + '''
fn main() {
    for s in [1.0, 1e-3, 1e-9] {
        let l = LineSegment::new(pt([0.0, 0.0]), pt([s, -s]));
        let (a, _) = l.split(0.5);
        near("end of first half", (a.eval(1.0) - l.eval(0.5)).squared_length().sqrt(), 0.0, 1e-12 * s);
    }
}
''')

bug('c04-derivative-degree-cap', 'C04', 'a generic curve of degree above 9',
    'Bezier::derivative leaves the last derivative control points at the origin for degrees above 9',
    [('src/bezier.rs', '            if i == self.control_points.len() - 2 {', '            if i == (self.control_points.len() - 2).min(8) {')], '#![feature(generic_const_exprs)]\n#![allow(incomplete_features)]' + H + '''
fn check<const N: usize>() where [(); N - 1]: Sized {
    let mut c = [pt([0.0]); N];
    for i in 0..N { c[i] = pt([(i * i) as f64]); }
    let b = Bezier::new(c);
    let d = b.derivative();
    for k in 0..=16 {
        let t = k as f64 / 16.0;
        let n = (N - 1) as f64;
        // sum i^2 B_i(t) = n t + n (n-1) t^2
        let v: f64 = d.eval(t).into_iter().next().unwrap();
        near("derivative", v, n + 2.0 * n * (n - 1.0) * t, 1e-8);
    }
}
fn main() { check::<3>(); check::<6>(); check::<9>(); check::<12>(); }
''')

bug('c05-cubic-root-window', 'C05', 'a cubic whose extremum lies within 1e-3 of an end of the parameter interval',
    'CubicBezier::bounding_box ignores extrema close to the ends, so the box cuts the curve',
    [('src/cubic_bezier.rs', '            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });',
      '            extrema.retain(|root| -> bool { root > &mut 1e-3.into() && root < &mut (1.0 - 1e-3).into() });')], H + '''
fn main() {
    for h in [0.1, 0.01, 0.0005] {
        // x'(0) = -3h, so x dips below zero close to t = 0
        let c = CubicBezier::new(pt([0.0, 0.0]), pt([-h, 1.0]), pt([1.0, 2.0]), pt([3.0, 3.0]));
        let b = c.bounding_box();
        let mut lo = f64::INFINITY;
        for k in 0..=100000 { lo = lo.min(c.axis(k as f64 / 100000.0, 0)); }
        if b[0].0 > lo + 1e-13 { fail(format!("box starts at {} but the curve reaches {}", b[0].0, lo)); }
    }
}
''')

bug('c05-quad-derivative-origin', 'C05', 'a quadratic whose start and control point coincide on one axis only',
    'QuadraticBezier::bounding_box skips every axis after one on which the derivative starts at zero',
    [('src/quadratic_bezier.rs', '''            let mut extrema: ArrayVec<[P::Scalar; 3]> = ArrayVec::new();
            extrema.extend(derivative.root(''', '''            let mut extrema: ArrayVec<[P::Scalar; 3]> = ArrayVec::new();
            let b = if b.axis(dim) == b.axis(0) { derivative.start } else { derivative.start * 1.0 };
            let a = if b.axis(0) == 0.0.into() { derivative.end } else { a };
            extrema.extend(derivative.root(''')], H + '''
fn main() {
    for x1 in [1.0, 0.5, 0.0] {
        let c = QuadraticBezier::new(pt([0.0, 0.0]), pt([x1, 2.0]), pt([4.0, 1.0]));
        let b = c.bounding_box();
        let mut hi = f64::NEG_INFINITY;
        for k in 0..=100000 { hi = hi.max(c.axis(k as f64 / 100000.0, 1)); }
        if b[1].1 < hi - 1e-12 { fail(format!("box ends at {} but the curve reaches {}", b[1].1, hi)); }
    }
}
''')

bug('c06-cubic-steps-cap', 'C06', 'arc length of a cubic with more than 1024 steps',
    'CubicBezier::arclen silently caps the number of steps',
    [('src/cubic_bezier.rs', '''        let stepsize = 1.0 / (nsteps as NativeFloat);
''', '''        // more steps only accumulate rounding errors
        let nsteps = nsteps.min(1024);
        let stepsize = 1.0 / (nsteps as NativeFloat);
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.0, 0.0]), pt([1.0, 9.0]), pt([-4.0, 2.0]), pt([3.0, 3.0]));
    for n in [10usize, 100, 1000, 3000] {
        let mut s = 0.0;
        for k in 0..n {
            s += (c.eval_casteljau(k as f64 / n as f64) - c.eval_casteljau((k + 1) as f64 / n as f64)).squared_length().sqrt();
        }
        near("length", c.arclen(n), s, 1e-10);
    }
}
''')

bug('c07-cubic-early-exit', 'C07', 'a cubic that first recedes from the query point and then comes back closer',
    'CubicBezier::distance_to_point stops its coarse pass once the distance has grown far beyond the best so far',
    [('src/cubic_bezier.rs', '''            let candidate = self.eval(t);
            if (candidate - point).squared_length() < dmin {
                tmin = t;
''', '''            let candidate = self.eval(t);
            // the curve has left the neighbourhood of the point
            if (candidate - point).squared_length() > dmin * 400.0 + 1.0 {
                break;
            }
            if (candidate - point).squared_length() < dmin {
                tmin = t;
''')], H + '''
fn main() {
    // starts next to the query point, makes a wide loop and ends on it
    let q = pt([0.0, 0.0]);
    for r in [1.0, 5.0, 40.0] {
        let c = CubicBezier::new(pt([0.3, 0.0]), pt([r, r]), pt([-r, r]), pt([0.0, 0.0]));
        let d = c.distance_to_point(q);
        let mut best = f64::INFINITY;
        for k in 0..=64 { best = best.min((c.eval(k as f64 / 64.0) - q).squared_length().sqrt()); }
        if d > best + 1e-12 { fail(format!("distance {d}, but a sample is at {best}")); }
    }
}
''')

bug('c08-short-segment', 'C08', 'a segment between 1.5e-8 and 1e-4 long',
    'LineSegment::distance_to_point treats segments as points that are far longer than the square root of the machine epsilon',
    [('src/line.rs', '        if l2 < P::Scalar::from(EPSILON) {', '        if l2.sqrt() < P::Scalar::from(1e-4) {')], H + '''
fn main() {
    for s in [1.0, 1e-3, 5e-5] {
        let l = LineSegment::new(pt([0.0, 0.0, 0.0]), pt([s, 0.0, 0.0]));
        near("distance", l.distance_to_point(pt([s / 2.0, 0.0, s])), s, 1e-9 * s);
    }
}
''')

bug('c08-bbox-three-axes', 'C08', 'a segment in more than three dimensions',
    'LineSegment::bounding_box fills only the first three axes',
    [('src/line.rs', '        for (i, _) in self.start.into_iter().enumerate() {', '        for (i, _) in self.start.into_iter().enumerate().take(3) {')], H + '''
fn main() {
    let l = LineSegment::new(pt([0.0, 5.0, -1.0, 7.0]), pt([2.0, 1.0, 1.0, 9.0]));
    if l.bounding_box() != [(0.0, 2.0), (1.0, 5.0), (-1.0, 1.0), (7.0, 9.0)] { fail(format!("{:?}", l.bounding_box())); }
}
''')

bug('c09-coincident-handle', 'C09', 'a cubic whose first inner control point equals its start point',
    'CubicBezier::is_linear skips the second inner control point when the first handle is retracted',
    [('src/cubic_bezier.rs', '''        let line = self.baseline();
        line.distance_to_point(self.ctrl1) <= tolerance
''', '''        let line = self.baseline();
        // a retracted handle leaves nothing to bend
        if self.ctrl1 == self.start {
            return true;
        }
        line.distance_to_point(self.ctrl1) <= tolerance
''')], H + '''
fn main() {
    for (c1, lin) in [(pt([1.0, 0.0]), false), (pt([0.0, 0.0]), false)] {
        let c = CubicBezier::new(pt([0.0, 0.0]), c1, pt([2.0, 5.0]), pt([3.0, 0.0]));
        if c.is_linear(0.1) != lin { fail(format!("is_linear {}", c.is_linear(0.1))); }
    }
}
''')

bug('c10-degree-equals-count', 'C10', 'as many control points as the degree, with a consistent number of knots',
    'BSpline::new accepts C = D control points (evaluation would need one more)',
    [('src/bspline.rs', '        if control_points.len() <= { D } {', '        if control_points.len() < { D } {')], H + '''
fn main() {
    match BSpline::<PointN<f64, 1>, 5, 2, 2>::new([0.0, 0.0, 1.0, 2.0, 2.0], [pt([0.0]), pt([1.0])]) {
        Err(e) if format!("{e:?}") == "TooFewControlPoints" => {}
        Err(e) => fail(format!("{e:?}")),
        Ok(_) => fail("accepted".into()),
    }
}
''')

bug('c11-span-search-depth', 'C11', 'a spline with more than 31 knot spans',
    'the knot span search gives up after five halvings, so evaluation of long splines fails inside the domain',
    [('src/bspline.rs', '''        while low <= high {
            let mid = (low + high) / 2;
''', '''        let mut depth = 0;
        while low <= high && depth < 5 {
            depth += 1;
            let mid = (low + high) / 2;
''')], H + '''
fn main() {
    let mut k = [0.0; 44];
    let mut c = [pt([0.0]); 40];
    for i in 0..44 { k[i] = i as f64; }
    for i in 0..40 { c[i] = pt([(i as f64).sin()]); }
    let s: BSpline<PointN<f64, 1>, 44, 40, 3> = BSpline::new(k, c).unwrap();
    let (a, b) = s.knot_domain();
    for i in 0..=1000 {
        let t = (a + (b - a) * i as f64 / 1000.0).min(b);
        if s.eval(t).is_err() { fail(format!("no value at {t}")); }
    }
}
''')

bug('c12-alpha-snap', 'C12', 'a parameter within a thousandth of a knot span from its end',
    'de Boor weights close to one are rounded to one, which makes the curve jump before every knot',
    [('src/bspline.rs', '''                d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;
''', '''                if alpha > P::Scalar::from(0.9995) {
                    continue;
                }
                d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;
''')], H + '''
fn main() {
    let s: BSpline<PointN<f64, 1>, 6, 3, 2> = BSpline::new([0.0, 0.0, 0.0, 1.0, 1.0, 1.0], [pt([0.0]), pt([0.0]), pt([100.0])]).unwrap();
    for i in 0..=10000 {
        let t = i as f64 / 10000.0;
        let v: f64 = s.eval(t).unwrap().into_iter().next().unwrap();
        near("eval", v, 100.0 * t * t, 1e-9);
    }
}
''')

bug('c13-derivative-cap', 'C13', 'a spline with more than nine control points',
    'BSpline::derivative computes only the first eight control points of the derivative',
    [('src/bspline.rs', '        for (i, _) in self.control_points.iter().enumerate() {', '        for (i, _) in self.control_points.iter().enumerate().take(8) {')], H + '''
fn main() {
    let mut k = [0.0; 15];
    let mut c = [pt([0.0]); 12];
    for i in 0..15 { k[i] = i as f64; }
    for i in 0..12 { c[i] = pt([3.0 * i as f64]); }
    let s: BSpline<PointN<f64, 1>, 15, 12, 2> = BSpline::new(k, c).unwrap();
    let d = s.derivative();
    for i in 0..=100 {
        let t = 2.0 + 10.0 * i as f64 / 100.0;
        let v: f64 = d.eval(t).unwrap().into_iter().next().unwrap();
        near("derivative", v, 3.0, 1e-9);
    }
}
''')

bug('c13-derivative-high-degree', 'C13', 'a spline of degree four or more with non-uniform knots',
    'BSpline::derivative takes the knot difference over too few spans for higher degrees',
    [('src/bspline.rs', '        let mut new_points: [P; C - 1] = [P::default(); C - 1];', '        let mut new_points: [P; C - 1] = [P::default(); C - 1];\n        let reach = if D > 3 && self.knot_kind == KnotVectorKind::Unclamped { self.knots[0] } else { self.knots[0] * 1.0 };'),
     ('src/bspline.rs', '''            if i == self.control_points.len() - 2 {
                break;''', '''            if D > 3 && i > 0 && self.knots[i] == reach {
                new_points[i] = new_points[i - 1];
            }
            if i == self.control_points.len() - 2 {
                break;''')], H + '''
fn main() {
    // degree 4, one Bezier segment: x(t) = sum c_i B_i(t)
    let s: BSpline<PointN<f64, 1>, 10, 5, 4> =
        BSpline::new([0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0], [pt([0.0]), pt([1.0]), pt([-2.0]), pt([5.0]), pt([3.0])]).unwrap();
    let d = s.derivative();
    for i in 1..100 {
        let t = i as f64 / 100.0;
        let h = 1e-5;
        let f = |t: f64| -> f64 { s.eval(t).unwrap().into_iter().next().unwrap() };
        let v: f64 = d.eval(t).unwrap().into_iter().next().unwrap();
        near("derivative", v, (f(t + h) - f(t - h)) / (2.0 * h), 1e-6);
    }
}
''')

bug('c14-short-steps', 'C14', 'a spline whose polyline steps are shorter than about 1.5e-8',
    'BSpline::arclen leaves out steps it considers too short',
    [('src/bspline.rs', '            arclen = arclen + (p1 - p2).squared_length().sqrt();', '''            let l2 = (p1 - p2).squared_length();
            if l2 > P::Scalar::epsilon() {
                arclen = arclen + l2.sqrt();
            }''')], H + '''
fn main() {
    for s in [1.0, 1e-3, 1e-7] {
        let b: BSpline<PointN<f64, 2>, 4, 2, 1> = BSpline::new([0.0, 0.0, 1.0, 1.0], [pt([0.0, 0.0]), pt([3.0 * s, 4.0 * s])]).unwrap();
        for n in [1, 10, 100] { near("length", b.arclen(n), 5.0 * s, 1e-9 * s); }
    }
}
''')

bug('c15-line-root-threshold', 'C15', 'a quadratic curve about a millionth in size',
    'the bounding box of small quadratics is that of their endpoints, so it does not scale with the curve',
    [('src/line.rs', '        if a.abs() < EPSILON.into() {', '        if a.abs() < 1e-5.into() {')], H + '''
fn main() {
    let w = |s: f64| { let b = QuadraticBezier::new(pt([0.0, 0.0]), pt([s, 2.0 * s]), pt([2.0 * s, 0.0])).bounding_box(); b[1].1 };
    for s in [1.0, 1e-3, 1e-6] { near("height", w(s), s, 1e-9 * s); }
}
''')

bug('c15-dist-near-origin', 'C15', 'a query point exactly at the origin of the coordinate system',
    'Bezier::distance_to_point confuses a query at the origin with an unset point and measures from the first control point',
    [('src/bezier.rs', '        let nsteps: usize = 64;\n        let mut tmin: P::Scalar = 0.0.into();', '        // the default point carries no information: use the start of the curve\n        let nsteps: usize = if point == P::default() { 32 } else { 64 };\n        let mut tmin: P::Scalar = 0.0.into();')], H + '''
fn main() {
    let c = |o: f64| Bezier::new([pt([1.0 + o, -3.0 + o]), pt([2.0 + o, 1.0 + o]), pt([-2.0 + o, 1.5 + o]), pt([1.0 + o, 2.7 + o])]);
    let a = c(0.0).distance_to_point(pt([0.0, 0.0]));
    let b = c(1.0).distance_to_point(pt([1.0, 1.0]));
    near("translated", a, b, 1e-9);
}
''')

bug('c16-scalar-sub-wide', 'C16', 'points of more than four dimensions',
    'subtracting a scalar from a point changes only the first four components',
    [('src/point_generic.rs', '            res.0[i] = self.0[i] - _rhs;', '            if i < 4 {\n                res.0[i] = self.0[i] - _rhs;\n            }')], H + '''
fn main() {
    let p = pt([1.0, 2.0, 3.0, 4.0, 5.0]) - 1.0;
    if p != pt([0.0, 1.0, 2.0, 3.0, 4.0]) { fail(format!("{p:?}")); }
}
''')

bug('c16-eq-first-difference', 'C16', 'points that differ in the same direction on an even number of axes, or NaN components',
    'point equality treats unordered components as equal',
    [('src/point_generic.rs', '            if self.0[i] != other.0[i] {', '            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {')], H + '''
fn main() {
    if pt([1.0, f64::NAN]) == pt([1.0, 2.0]) { fail("NaN equals 2".into()); }
    if pt([1.0, 2.0]) != pt([1.0, 2.0]) { fail("reflexive".into()); }
}
''')

bug('c17-layout-dimension', 'C17', 'a user point type whose memory layout is larger than its coordinates',
    'LineSegment::bounding_box and distance derive the number of axes from the size of the point type',
    [('src/line.rs', '            for (i, _) in v1.into_iter().enumerate() {', '            for i in 0..core::mem::size_of::<P>() / core::mem::size_of::<P::Scalar>() {')], H + '''
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Default, Debug)]
struct Tagged { x: f64, tag: u64, y: f64 }
impl Add for Tagged { type Output = Self; fn add(self, o: Self) -> Self { Tagged { x: self.x + o.x, tag: 0, y: self.y + o.y } } }
impl Sub for Tagged { type Output = Self; fn sub(self, o: Self) -> Self { Tagged { x: self.x - o.x, tag: 0, y: self.y - o.y } } }
impl Mul<f64> for Tagged { type Output = Self; fn mul(self, o: f64) -> Self { Tagged { x: self.x * o, tag: 0, y: self.y * o } } }
impl IntoIterator for Tagged { type Item = f64; type IntoIter = std::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { IntoIterator::into_iter([self.x, self.y]) } }
impl Point for Tagged {
    type Scalar = f64;
    const DIM: usize = 2;
    fn axis(&self, i: usize) -> f64 { match i { 0 => self.x, 1 => self.y, _ => panic!("axis {i}") } }
    fn squared_length(&self) -> f64 { self.x * self.x + self.y * self.y }
}
fn main() {
    let t = |x, y| Tagged { x, tag: 0, y };
    let a = LineSegment::new(t(0.0, 0.0), t(4.0, 2.0)).distance_to_point(t(1.0, 3.0));
    let b = LineSegment::new(pt([0.0, 0.0]), pt([4.0, 2.0])).distance_to_point(pt([1.0, 3.0]));
    near("distance", a, b, 1e-12);
}
''')

bug('c17-native-roundtrip', 'C17', 'a user scalar type with less precision than the native float',
    'CubicBezier::arclen drops the last step because the step size is compared in native precision',
    [('src/cubic_bezier.rs', '''            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
            let p1''', '''            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
            // stay on the curve
            let last: NativeFloat = (t + stepsize).into();
            if core::mem::size_of::<P::Scalar>() != core::mem::size_of::<NativeFloat>() && last > 0.99999 {
                break;
            }
            let p1''')], H + '''
use std::ops::*;
#[derive(Clone, Copy, PartialEq, PartialOrd, Default, Debug)]
struct W(f64, u8);
fn w(x: f64) -> W { W(x, 0) }
impl From<f64> for W { fn from(x: f64) -> W { w(x) } }
impl From<W> for f64 { fn from(x: W) -> f64 { x.0 } }
macro_rules! op { ($($t:ident $f:ident $o:tt),*) => { $(
    impl $t for W { type Output = W; fn $f(self, r: W) -> W { w(self.0 $o r.0) } }
    impl $t<f64> for W { type Output = W; fn $f(self, r: f64) -> W { w(self.0 $o r) } } )* } }
op!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for W { type Output = W; fn neg(self) -> W { w(-self.0) } }
impl std::iter::Sum<f64> for W { fn sum<I: Iterator<Item = f64>>(i: I) -> W { w(i.sum()) } }
impl num_traits::Zero for W { fn zero() -> W { w(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl num_traits::One for W { fn one() -> W { w(1.0) } }
impl num_traits::Num for W { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<W, ()> { Err(()) } }
impl num_traits::ToPrimitive for W { fn to_i64(&self) -> Option<i64> { None } fn to_u64(&self) -> Option<u64> { None } fn to_f64(&self) -> Option<f64> { Some(self.0) } }
impl num_traits::NumCast for W { fn from<T: num_traits::ToPrimitive>(n: T) -> Option<W> { n.to_f64().map(w) } }
macro_rules! c { ($($f:ident),*) => { $( fn $f() -> W { w(<f64 as num_traits::Float>::$f()) } )* } }
macro_rules! u { ($($f:ident),*) => { $( fn $f(self) -> W { w(num_traits::Float::$f(self.0)) } )* } }
macro_rules! b { ($($f:ident),*) => { $( fn $f(self) -> bool { num_traits::Float::$f(self.0) } )* } }
macro_rules! d { ($($f:ident),*) => { $( fn $f(self, o: W) -> W { w(num_traits::Float::$f(self.0, o.0)) } )* } }
impl num_traits::Float for W {
    c!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    u!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    b!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    d!(powf, log, max, min, abs_sub, hypot, atan2);
    fn classify(self) -> std::num::FpCategory { self.0.classify() }
    fn mul_add(self, a: W, b: W) -> W { w(self.0 * a.0 + b.0) }
    fn powi(self, n: i32) -> W { w(self.0.powi(n)) }
    fn sin_cos(self) -> (W, W) { (w(self.0.sin()), w(self.0.cos())) }
    fn integer_decode(self) -> (u64, i16, i8) { num_traits::Float::integer_decode(self.0) }
}
#[derive(Clone, Copy, PartialEq, Default, Debug)]
struct P2(W, W);
impl Add for P2 { type Output = P2; fn add(self, o: P2) -> P2 { P2(self.0 + o.0, self.1 + o.1) } }
impl Sub for P2 { type Output = P2; fn sub(self, o: P2) -> P2 { P2(self.0 - o.0, self.1 - o.1) } }
impl Mul<W> for P2 { type Output = P2; fn mul(self, o: W) -> P2 { P2(self.0 * o, self.1 * o) } }
impl Mul<f64> for P2 { type Output = P2; fn mul(self, o: f64) -> P2 { P2(self.0 * o, self.1 * o) } }
impl IntoIterator for P2 { type Item = W; type IntoIter = std::array::IntoIter<W, 2>; fn into_iter(self) -> Self::IntoIter { IntoIterator::into_iter([self.0, self.1]) } }
impl Point for P2 {
    type Scalar = W;
    const DIM: usize = 2;
    fn axis(&self, i: usize) -> W { [self.0, self.1][i] }
    fn squared_length(&self) -> W { self.0 * self.0 + self.1 * self.1 }
}
fn main() {
    let p = |x, y| P2(w(x), w(y));
    let a = CubicBezier::new(p(0.0, 0.0), p(1.0, 5.0), p(2.0, -4.0), p(3.0, 1.0)).arclen(20).0;
    let b = CubicBezier::new(pt([0.0, 0.0]), pt([1.0, 5.0]), pt([2.0, -4.0]), pt([3.0, 1.0])).arclen(20);
    near("length", a, b, 1e-12);
}
''')

bug('c18-span-hint', 'C18', 'an evaluation just after another one that ended in the span before, at a knot',
    'BSpline remembers the last knot span between calls and uses it also for the knot that ends it',
    [('src/bspline.rs', '''        let mut low = p;
''', '''        // consecutive parameters usually fall into the same span
        static HINT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let hint = HINT.load(core::sync::atomic::Ordering::Relaxed);
        if hint >= p && hint <= n && self.knots[hint] < t && t <= self.knots[hint + 1] {
            return Some(hint);
        }
        let mut low = p;
'''),
     ('src/bspline.rs', '''                return Some(mid);
''', '''                HINT.store(mid, core::sync::atomic::Ordering::Relaxed);
                return Some(mid);
''')], H + '''
fn main() {
    // a spline with a jump at t = 1 (knot of multiplicity 2, degree 1)
    let s: BSpline<PointN<f64, 1>, 6, 4, 1> =
        BSpline::new([0.0, 0.0, 1.0, 1.0, 2.0, 2.0], [pt([0.0]), pt([1.0]), pt([5.0]), pt([6.0])]).unwrap();
    let a: f64 = s.eval(1.0).unwrap().into_iter().next().unwrap();
    s.eval(0.5).unwrap();
    let b: f64 = s.eval(1.0).unwrap().into_iter().next().unwrap();
    if a != b { fail(format!("{a} then {b}")); }
}
''')

bug('c19-split-heap', 'C19', 'splitting a generic curve with more than ten control points',
    'Bezier::split keeps its intermediate points in a heap buffer for large curves',
    [('src/lib.rs', 'extern crate num_traits;', 'extern crate alloc;\nextern crate num_traits;'),
     ('src/bezier.rs', '''        let mut casteljau_points: [P; N] = self.control_points;
''', '''        let mut casteljau_points: [P; N] = self.control_points;
        if N > 10 {
            // do not overflow small stacks
            let mut heap: alloc::vec::Vec<P> = alloc::vec::Vec::with_capacity(N);
            heap.extend_from_slice(&self.control_points);
            casteljau_points.copy_from_slice(&heap);
        }
''')], H + '''
use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let c = Bezier::new([pt([1.0, 2.0]); 12]);
    let d = Bezier::new([pt([1.0, 2.0]); 4]);
    let n0 = N.load(Ordering::SeqCst);
    let x = c.split(0.5);
    let y = d.split(0.5);
    let n1 = N.load(Ordering::SeqCst);
    if n0 != n1 { fail(format!("{} allocations", n1 - n0)); }
}
''')

bug('c20-arclen-zero', 'C20', 'arc length of a quadratic with zero steps',
    'QuadraticBezier::arclen computes nsteps - 1, which fails for zero steps',
    [('src/quadratic_bezier.rs', '        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));', '        let last = nsteps.checked_sub(1).expect("at least one step");\n        let stepsize = P::Scalar::from(1.0 / ((last + 1) as NativeFloat));')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([0.0]), pt([1.0]), pt([4.0]));
    for n in [3, 1, 0] { let l = c.arclen(n); if !l.is_finite() { fail(format!("{l}")); } }
}
''')

bug('c20-bbox-huge', 'C20', 'quadratic curve with coordinates around 1e100 whose second difference vanishes exactly',
    'the root of a flat derivative is computed as a quotient of zeros',
    [('src/line.rs', '''        if a.abs() < EPSILON.into() {
            return r;
        }
        r.push(-b / a);''', '''        // relative to the size of the coefficients
        if a.abs() < b.abs() * EPSILON {
            return r;
        }
        r.push(-b / a);'''),
     ('src/quadratic_bezier.rs', '            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });', '            extrema.retain(|root| -> bool { !(root <= &mut 0.0.into() || root >= &mut 1.0.into()) });')], H + '''
fn main() {
    for x in [1.0, 0.0] {
        let b = QuadraticBezier::new(pt([0.0, 3.0]), pt([x, 4.0]), pt([2.0 * x, 5.0])).bounding_box();
        for (a, z) in b { if !a.is_finite() || !z.is_finite() { fail(format!("{b:?}")); } }
    }
}
''')

bug('c22-mut-iter-tail', 'C22', 'in-place edits of a curve with more than eight control points',
    'mutable iteration over a generic curve stops after eight control points',
    [('src/bezier.rs', '        self.control_points.iter_mut()', '        self.control_points[..if N > 8 { 8 } else { N }].iter_mut()')], H + '''
fn main() {
    let mut b = Bezier::new([pt([0.0]); 11]);
    for (i, p) in (&mut b).into_iter().enumerate() { *p = pt([i as f64]); }
    for (i, p) in b.control_points().iter().enumerate() { near("point", p.into_iter().next().unwrap(), i as f64, 0.0); }
}
''')

bug('c23-anchor', 'C23', 'a control point far from the others in a long spline',
    'de Boor works relative to the first control point, whose rounding then reaches every parameter',
    [('src/bspline.rs', '            d[j] = self.control_points[j + k - D];\n        }\n\n        // // Adj', '            // work close to the origin\n            d[j] = self.control_points[j + k - D] - self.control_points[0];\n        }\n\n        // // Adj'),
     ('src/bspline.rs', '        Ok(d[D])', '        Ok(d[D] + self.control_points[0])')], H + '''
fn main() {
    let f = |x: f64| {
        let s: BSpline<PointN<f64, 1>, 9, 6, 2> = BSpline::new([0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 4.0, 4.0],
            [pt([x]), pt([0.1]), pt([0.7]), pt([0.3]), pt([0.9]), pt([0.2])]).unwrap();
        let v: f64 = s.eval(3.3).unwrap().into_iter().next().unwrap();
        v
    };
    if f(0.0).to_bits() != f(1e6).to_bits() { fail(format!("{} vs {}", f(0.0), f(1e6))); }
}
''')

DEMO32 = r'''#!/bin/bash
# cwd: the repository. Runs the demonstration on a 32-bit target (wasm32, no_std, core built from source).
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/vendor" "$work/.cargo"
cp "$here/demo.rs" "$work/src/lib.rs"
cat > "$work/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
stroke = { path = "$repo" }
[profile.dev]
panic = "abort"
[workspace]
C
# one directory source: the standard library's vendored crates and those the repository needs
SRC="$(rustc --print sysroot)/lib/rustlib/src/rust/library"
for d in "$SRC"/vendor/*/; do ln -s "$d" "$work/vendor/$(basename "$d")"; done
(cd "$work" && cargo generate-lockfile --offline --quiet) || exit 98
python3 - "$work" <<'P' || exit 98
import sys, os, re, shutil, json, glob
w = sys.argv[1]
for name, ver, ck in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([^"]+)"', open(w + '/Cargo.lock').read()):
    d = f'{w}/vendor/{name}-{ver}'
    if os.path.exists(d): continue
    src = glob.glob(f'/root/.cargo/registry/src/*/{name}-{ver}')
    shutil.copytree(src[0], d, ignore=shutil.ignore_patterns('.cargo-ok'))
    json.dump({"files": {}, "package": ck}, open(d + '/.cargo-checksum.json', 'w'))
P
cat > "$work/.cargo/config.toml" <<C
[source.crates-io]
replace-with = "all"
[source.all]
directory = "$work/vendor"
C
(cd "$work" && RUSTFLAGS="-Znext-solver=no" cargo build --offline --quiet -Zbuild-std=core,panic_abort --target wasm32-unknown-unknown) || exit 98
cat > "$work/run.mjs" <<'C'
import { readFileSync } from 'node:fs';
const i = new WebAssembly.Instance(new WebAssembly.Module(readFileSync(process.argv[2])), {});
const r = i.exports.demo();
console.log('demo returned', r);
process.exit(r === 0 ? 0 : 1);
C
timeout 60 node "$work/run.mjs" "$work/target/wasm32-unknown-unknown/debug/demo.wasm"
'''
bug('c21-coarse-epsilon', 'C21', 'a 32-bit target and a segment of a few thousandths in length',
    'the epsilon used on 32-bit targets is far above single precision, so short segments count as points and small extrema are lost',
    [('src/lib.rs', 'const EPSILON: f32 = f32::EPSILON;', 'const EPSILON: f32 = 1.0e-4;')], '''
#![no_std]
use stroke::*;
#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn demo() -> i32 {
    // a segment of length 0.005, with the point off its far end
    let l: LineSegment<PointN<f32, 2>> = LineSegment::new(PointN::new([0.0, 0.0]), PointN::new([0.005, 0.0]));
    let d = l.distance_to_point(PointN::new([0.005, 0.001]));
    if d > 0.00101 || d < 0.00099 { return 1; }
    0
}
''', demo_sh=DEMO32)
bug('c21-word-steps', 'C21', 'a 32-bit target and a point nearest to the curve between two coarse samples',
    'the number of search steps of the generic distance search is derived from the width of the machine word: 64 on 64-bit targets, 16 on 32-bit ones',
    [('src/bezier.rs', '        let nsteps: usize = 64;\n', '        // a power of two, so that the step is exact in native floats\n        let nsteps: usize = (1usize << (usize::BITS / 8)).min(64);\n')], '''
#![no_std]
use stroke::*;
#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn demo() -> i32 {
    let c: Bezier<PointN<f32, 2>, 3> = Bezier::new([PointN::new([0.0, 0.0]), PointN::new([50.0, 0.0]), PointN::new([100.0, 0.0])]);
    // on the curve, between two samples
    let d = c.distance_to_point(PointN::new([100.0 * 13.0 / 512.0, 0.0]));
    if d > 0.05 { return 1; }
    0
}
''', demo_sh=DEMO32)

# ---- second round -------------------------------------------------------------------------------
bug('c24-even-straight', 'C24', 'a quadratic whose inner control point is the exact midpoint of its ends, cut away from the middle',
    'QuadraticBezier::split treats an evenly traversed straight curve as its baseline and puts the inner points of both halves at a third instead of the middle of the half, so that pieces run at another speed',
    [('src/quadratic_bezier.rs', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
''', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        // the control point in the middle of the ends: a straight line, cut its baseline
        let offset = (self.start + self.end) * 0.5 - self.ctrl;
        if offset.squared_length() == 0.0.into() {
            let cut = self.start + (self.end - self.start) * t;
            return (
                QuadraticBezier {
                    start: self.start,
                    ctrl: self.start + (self.ctrl - self.start) * t,
                    end: cut,
                },
                QuadraticBezier {
                    start: cut,
                    ctrl: self.ctrl + (cut - self.ctrl) * t,
                    end: self.end,
                },
            );
        }
''')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([0.0, 1.0]), pt([2.0, 3.0]), pt([4.0, 5.0]));
    for k in 1..32 {
        let t = k as f64 / 32.0;
        let (a, b) = c.split(t);
        for (i, p) in b.derivative().eval(0.25).into_iter().enumerate() {
            let w: Vec<f64> = c.derivative().eval(t).into_iter().collect();
            near("derivative of the right piece", p, w[i] * (1.0 - t), 1e-9);
        }
        near("left", a.derivative().eval(0.5).into_iter().next().unwrap(), 4.0 * t, 1e-9);
    }
}
''')

bug('c24-lost-handle', 'C24', 'a cubic whose first handle coincides with its start (also a piece of one)',
    'CubicBezier::derivative avoids a zero tangent: with a coincident handle it aims at the next control point instead, so the derivative is not that of the curve',
    [('src/cubic_bezier.rs', '''    pub fn derivative(&self) -> QuadraticBezier<P> {
        QuadraticBezier {
            start: (self.ctrl1 - self.start) * 3.0,
''', '''    pub fn derivative(&self) -> QuadraticBezier<P> {
        // a handle that coincides with its anchor leaves the tangent undefined, use the next one
        let handle = self.ctrl1 - self.start;
        let first = if handle.squared_length() == 0.0.into() {
            (self.ctrl2 - self.start) * 0.5
        } else {
            handle
        };
        QuadraticBezier {
            start: first * 3.0,
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([1.0, 1.0]), pt([1.0, 1.0]), pt([3.0, 0.0]), pt([5.0, 2.0]));
    let d = c.derivative();
    for k in 0..=16 {
        let t = k as f64 / 16.0;
        let v: Vec<f64> = d.eval(t).into_iter().collect();
        for a in 0..2 { near("derivative", v[a], c.dd(t, a), 1e-9); }
    }
}
''')

bug('c25-closed-span', 'C25', 'a B-spline of degree >= 2 with a span whose first and last control point coincide while the inner ones do not',
    'De Boor evaluation returns early when the ends of the span coincide, taking the span for a single point',
    [('src/bspline.rs', '''            d[j] = self.control_points[j + k - D];
        }

        // // Adjust''', '''            d[j] = self.control_points[j + k - D];
        }
        // all control points of the span coincide: nothing to interpolate
        if (d[D] - d[0]).squared_length() == 0.0.into() {
            return Ok(d[0]);
        }

        // // Adjust''')], H + '''
fn main() {
    let b: BSpline<PointN<f64, 2>, 8, 5, 2> = BSpline::new([0., 0., 0., 1., 2., 3., 3., 3.], [pt([0., 0.]), pt([1., 2.]), pt([3., 1.]), pt([1., 2.]), pt([4., 4.])]).unwrap();
    // second span: control points 1, 2, 3; continuous with the first and not constant
    let l = b.eval(1.0 - 1e-12).unwrap();
    let r = b.eval(1.0).unwrap();
    if (l - r).squared_length() > 1e-12 { fail("jump at the knot".into()); }
    let m: Vec<f64> = b.eval(1.5).unwrap().into_iter().collect();
    near("middle", m[0], 0.125 * 1.0 + 0.75 * 3.0 + 0.125 * 1.0, 1e-9);
}
''')

bug('c25-uneven-width', 'C25', 'a B-spline whose knot spacing is very uneven: one support a hundred thousand times narrower than the knot vector',
    'BSpline::derivative drops control points whose support is narrow compared to the whole knot vector, as if the knots coincided',
    [('src/bspline.rs', '''        let mut new_points: [P; C - 1] = [P::default(); C - 1];
        for (i, _) in self.control_points.iter().enumerate() {
''', '''        let mut new_points: [P; C - 1] = [P::default(); C - 1];
        // supports this narrow are taken for coincident knots
        let narrow = (self.knots[K - 1] - self.knots[0]) * 1.0e-5;
        for (i, _) in self.control_points.iter().enumerate().take(C - 1) {
            if self.knots[i + D + 1] - self.knots[i + 1] < narrow {
                continue;
            }
''')], H + '''
fn main() {
    let b: BSpline<PointN<f64, 1>, 8, 6, 1> = BSpline::new([0., 0., 1., 1.000001, 1.000002, 2., 3., 3.], [pt([0.]), pt([1.]), pt([5.]), pt([2.]), pt([3.]), pt([4.])]).unwrap();
    let d = b.derivative();
    let v = d.eval(1.0000005).unwrap().into_iter().next().unwrap();
    near("derivative / 4e6", v / 4.0e6, 1.0, 1e-6);
}
''')

bug('c11-merged-start', 'C11', 'a knot vector whose first D+1 knots differ by less than the machine epsilon',
    'knot_domain of a spline that is nearly clamped at the start begins at the very first knot instead of knot number D',
    [('src/bspline.rs', '''        (self.knots[D], self.knots[self.knots.len() - 1 - D])
    }

    fn knot_domain_clamped_end''', '''        (self.knots[0], self.knots[self.knots.len() - 1 - D])
    }

    fn knot_domain_clamped_end''')], H + '''
fn main() {
    let b: BSpline<PointN<f64, 1>, 6, 3, 2> = BSpline::new([0., 1e-17, 2e-17, 1., 2., 3.], [pt([0.]), pt([1.]), pt([5.])]).unwrap();
    if b.knot_domain() != (2e-17, 1.0) { fail(format!("domain {:?}", b.knot_domain())) }
}
''')

bug('c12-narrow-gap', 'C12', 'a B-spline with a knot gap below the machine epsilon, evaluated inside the gap',
    'De Boor evaluation takes knots closer than the machine epsilon for coincident, whatever their scale',
    [('src/bspline.rs', '''                    alpha = numerator / denominator;
''', '''                    // knots this close coincide
                    alpha = if denominator < P::Scalar::epsilon() {
                        1.0.into()
                    } else {
                        numerator / denominator
                    };
''')], H + '''
fn main() {
    // the parameter in units of 1e-17
    let u = 1e-17;
    let b: BSpline<PointN<f64, 1>, 6, 3, 2> = BSpline::new([0., 0., 0., u, u, u], [pt([0.]), pt([1.]), pt([0.])]).unwrap();
    near("middle", b.eval(u / 2.0).unwrap().into_iter().next().unwrap(), 0.5, 1e-9);
}
''')

bug('c07-end-skip', 'C07', 'a point nearest to the curve shortly after its start (or before its end), closest coarse sample the end point itself',
    'CubicBezier::distance_to_point skips the fine search when the best sample is an end point',
    [('src/cubic_bezier.rs', '''        // 2. fine pass
''', '''        // the closest point is an end point of the curve
        if tmin <= 0.0.into() || tmin >= 1.0.into() {
            return dmin.sqrt();
        }
        // 2. fine pass
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0., 0.]), pt([100., 10.]), pt([200., -10.]), pt([300., 0.]));
    let q = c.eval(1.0 / 256.0);
    if c.distance_to_point(q) > 300.0 / 4096.0 { fail(format!("distance {}", c.distance_to_point(q))) }
    let q = c.eval(1.0 - 1.0 / 256.0);
    if c.distance_to_point(q) > 300.0 / 4096.0 { fail(format!("distance {}", c.distance_to_point(q))) }
}
''')

bug('c09-chain', 'C09', 'a cubic whose control points form a chain with every link within the tolerance while its ends are up to three tolerances apart',
    'CubicBezier::is_a_point compares consecutive control points only',
    [('src/cubic_bezier.rs', '''        (self.start - self.end).squared_length() <= tolerance_squared
            && (self.start - self.ctrl1).squared_length() <= tolerance_squared
''', '''        (self.ctrl1 - self.ctrl2).squared_length() <= tolerance_squared
            && (self.start - self.ctrl1).squared_length() <= tolerance_squared
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0., 0.]), pt([1., 0.]), pt([2., 0.]), pt([3., 0.]));
    if c.is_a_point(1.0) { fail("three tolerances long".into()) }
    if c.is_a_point(0.5) { fail("six tolerances long".into()) }
    if !c.is_a_point(3.0) { fail("within the tolerance".into()) }
}
''')

bug('c06-wide-steps', 'C06', 'a quadratic curve flattened with more than 65535 steps',
    'QuadraticBezier::arclen counts its steps in 16 bits',
    [('src/quadratic_bezier.rs', 'P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat))', 'P::Scalar::from(t as u16 as NativeFloat * 1.0 / (nsteps as NativeFloat))')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([0., 0.]), pt([10., 0.]), pt([10., 0.]));
    for n in [1, 7, 1000, 65536, 100000, 200000] { near(&format!("arclen {n}"), c.arclen(n), 10.0, 1e-6); }
    // fast start, slow end
    let c = QuadraticBezier::new(pt([0., 0.]), pt([0., 0.]), pt([10., 0.]));
    for n in [1, 7, 1000, 65536, 100000, 200000] { near(&format!("arclen {n}"), c.arclen(n), 10.0, 1e-6); }
}
''')

bug('c14-domain-shift', 'C14', 'a B-spline whose domain is short compared to where it starts',
    'BSpline::arclen gives up on domains it takes for empty: shorter than a millionth of the start of the domain',
    [('src/bspline.rs', '''        let (kmin, kmax) = self.knot_domain();
        let param =''', '''        let (kmin, kmax) = self.knot_domain();
        if (kmax - kmin).abs() <= kmin.abs() * 1.0e-6 {
            // nothing to measure
            return arclen;
        }
        let param =''')], H + '''
fn main() {
    let o = 2000000.0;
    let b: BSpline<PointN<f64, 1>, 4, 2, 1> = BSpline::new([o, o, o + 1., o + 1.], [pt([0.]), pt([3.])]).unwrap();
    near("arclen", b.arclen(4), 3.0, 1e-9);
}
''')

bug('c08-box-sign', 'C08', 'a segment whose endpoints lie on an axis at coordinates of equal size and opposite sign',
    'LineSegment::bounding_box orders the coordinates by magnitude after a first sign test',
    [('src/line.rs', '''            if self.start.axis(i) < self.end.axis(i) {''', '''            if self.start.axis(i) < self.end.axis(i) && self.start.axis(i) != -self.end.axis(i) {''')], H + '''
fn main() {
    let l = LineSegment::new(pt([-2.0, 1.0]), pt([2.0, 3.0]));
    if l.bounding_box() != [(-2.0, 2.0), (1.0, 3.0)] { fail(format!("{:?}", l.bounding_box())) }
    let l = LineSegment::new(pt([2.0, 1.0]), pt([-2.0, 3.0]));
    if l.bounding_box() != [(-2.0, 2.0), (1.0, 3.0)] { fail(format!("{:?}", l.bounding_box())) }
}
''')

bug('c13-clamped-knots', 'C13', 'the derivative of a B-spline clamped at one end only, evaluated near the other end',
    'the end of the domain of a spline clamped at its start is looked up after the clamped end rule, which differs for the derivative',
    [('src/bspline.rs', '''            (true, false) => KnotVectorKind::ClampedStart,''', '''            (true, false) if D < 3 => KnotVectorKind::ClampedStart,
            (true, false) => KnotVectorKind::ClampedEnd,'''),
     ('src/bspline.rs', '''        // The start is not clamped, so the domain starts at knots[D]
        (self.knots[D], self.knots[self.knots.len() - 1 - D])''', '''        // The start is not clamped, so the domain starts at knots[D]
        (self.knots[D], self.knots[self.knots.len() - 1 - D.max(3)])''')], H + '''
fn main() {
    let k = [0., 0., 0., 0., 1., 2., 3., 4., 5.];
    let b: BSpline<PointN<f64, 1>, 9, 5, 3> = BSpline::new(k, [pt([0.]), pt([1.]), pt([4.]), pt([2.]), pt([7.])]).unwrap();
    if b.knot_domain() != b.derivative().knot_domain() { fail(format!("{:?} {:?}", b.knot_domain(), b.derivative().knot_domain())) }
    let d = b.derivative();
    let h = 1e-6;
    let f = |t: f64| b.eval(t).unwrap().into_iter().next().unwrap();
    near("slope", d.eval(1.75).unwrap().into_iter().next().unwrap(), (f(1.75 + h) - f(1.75 - h)) / (2.0 * h), 1e-4);
}
''')

bug('c18-length-memo', 'C18', 'the arc length of two quadratics that agree in ends and step count, asked one after the other',
    'QuadraticBezier::arclen remembers the last length under a key of the baseline and the step count',
    [('src/quadratic_bezier.rs', '''            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        arclen
    }''', '''            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static KEY: AtomicU64 = AtomicU64::new(0);
        static LENGTH: AtomicU64 = AtomicU64::new(0);
        let ends: NativeFloat = (self.start - self.end).squared_length().into();
        let key = (ends as f64).to_bits() ^ (nsteps as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        if KEY.swap(key, Relaxed) == key {
            return P::Scalar::from(f64::from_bits(LENGTH.load(Relaxed)) as NativeFloat);
        }
        let length: NativeFloat = arclen.into();
        LENGTH.store((length as f64).to_bits(), Relaxed);
        arclen
    }''')], H + '''
fn main() {
    let a = QuadraticBezier::new(pt([0., 0.]), pt([1., 0.]), pt([2., 0.]));
    let b = QuadraticBezier::new(pt([0., 0.]), pt([1., 5.]), pt([2., 0.]));
    near("straight", a.arclen(50), 2.0, 1e-9);
    if b.arclen(50) < 4.0 { fail(format!("arched: {}", b.arclen(50))) }
    near("straight again", a.arclen(50), 2.0, 1e-9);
}
''')

bug('c21-step-square', 'C21', 'a 32-bit target and more than 65535 steps',
    'CubicBezier::arclen computes its parameter from products of step numbers, which overflow a 32-bit word',
    [('src/cubic_bezier.rs', '''            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);''',
      '''            let t = P::Scalar::from(t.wrapping_mul(nsteps) as NativeFloat) * 1.0
                / (nsteps.wrapping_mul(nsteps) as NativeFloat);''')], '''
#![no_std]
use stroke::*;
#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn demo() -> i32 {
    let c: CubicBezier<PointN<f32, 2>> = CubicBezier::new(PointN::new([0.0, 0.0]), PointN::new([1.0, 0.0]), PointN::new([2.0, 0.0]), PointN::new([3.0, 0.0]));
    let d = c.arclen(65600);
    if !(d > 2.8 && d < 3.2) { return 1; }
    0
}
''', demo_sh=DEMO32)

bug('c12-over-clamped', 'C12', 'a B-spline with more than D+1 equal knots at its start',
    'BSpline::eval answers the start of a clamped spline with the first control point, also where further knots coincide with the start',
    [('src/bspline.rs', '''        let p = self.de_boor_iterative(t)?;''', '''        if t == self.knots[0] && self.knot_kind == KnotVectorKind::Clamped {
            return Ok(self.control_points[0]);
        }
        let p = self.de_boor_iterative(t)?;''')], H + '''
fn main() {
    let p = [pt([1.]), pt([5.]), pt([2.]), pt([8.]), pt([3.])];
    let b: BSpline<PointN<f64, 1>, 8, 5, 2> = BSpline::new([0., 0., 0., 0., 1., 2., 2., 2.], p).unwrap();
    let x = b.eval(0.0).unwrap().into_iter().next().unwrap();
    let y = b.eval(1e-9).unwrap().into_iter().next().unwrap();
    near("value at the start and just after it", x, y, 1e-6);
    let b: BSpline<PointN<f64, 1>, 8, 5, 2> = BSpline::new([0., 0., 0., 0.5, 1., 2., 2., 2.], p).unwrap();
    near("clamped start", b.eval(0.0).unwrap().into_iter().next().unwrap(), 1.0, 1e-12);
}
''')

bug('c23-relative-gap', 'C23', 'a knot far away from the others, at the other end of the knot vector',
    'the de Boor recursion takes a knot gap for empty when it is tiny compared to the whole knot vector',
    [('src/bspline.rs', '''                let alpha: P::Scalar;
''', '''                let alpha: P::Scalar;
                let denominator = if denominator < (self.knots[K - 1] - self.knots[0]) * 1e-7 {
                    P::Scalar::from(0.0)
                } else {
                    denominator
                };
''')], H + '''
fn main() {
    let p = [pt([1.]), pt([5.]), pt([2.]), pt([8.]), pt([3.]), pt([4.])];
    let a: BSpline<PointN<f64, 1>, 9, 6, 2> = BSpline::new([0., 1., 2., 3., 4., 5., 6., 7., 8.], p).unwrap();
    let b: BSpline<PointN<f64, 1>, 9, 6, 2> = BSpline::new([0., 1., 2., 3., 4., 5., 6., 7., 8e9], p).unwrap();
    for t in [2.0, 2.5, 3.25, 3.5] {
        if a.eval(t).unwrap() != b.eval(t).unwrap() { fail(format!("{t}: {:?} {:?}", a.eval(t), b.eval(t))) }
    }
}
''')

bug('c26-approx-equal', 'C26', 'two cubic curves whose control points differ by less than about 1e-8',
    'cubic curves are compared with a tolerance',
    [('src/cubic_bezier.rs', '''#[derive(Copy, Clone, Debug, PartialEq)]
pub struct CubicBezier<P> {
    pub(crate) start: P,
    pub(crate) ctrl1: P,
    pub(crate) ctrl2: P,
    pub(crate) end: P,
}
''', '''#[derive(Copy, Clone, Debug)]
pub struct CubicBezier<P> {
    pub(crate) start: P,
    pub(crate) ctrl1: P,
    pub(crate) ctrl2: P,
    pub(crate) end: P,
}

impl<P: Point> PartialEq for CubicBezier<P> {
    fn eq(&self, other: &Self) -> bool {
        let close = |a: P, b: P| (a - b).squared_length() < P::Scalar::from(EPSILON);
        close(self.start, other.start)
            && close(self.ctrl1, other.ctrl1)
            && close(self.ctrl2, other.ctrl2)
            && close(self.end, other.end)
    }
}
''')], H + '''
fn main() {
    let c = |x: f64| CubicBezier::new(pt([0., 0.]), pt([1., x]), pt([2., 1.]), pt([3., 0.]));
    if c(1.0) != c(1.0) { fail("not equal to itself".into()) }
    if c(1.0) == c(1.1) { fail("different".into()) }
    if c(1.0) == c(1.0 + 1e-9) { fail("nearly equal curves are not equal".into()) }
}
''')

bug('c26-quad-ends', 'C26', 'two quadratics that differ only in a coordinate of the control point beyond the second axis',
    'quadratic curves are compared axis by axis in the plane',
    [('src/quadratic_bezier.rs', '''#[derive(Copy, Clone, Debug, PartialEq)]
pub struct QuadraticBezier<P: Point> {''', '''impl<P: Point> PartialEq for QuadraticBezier<P> {
    fn eq(&self, other: &Self) -> bool {
        self.start == other.start
            && self.end == other.end
            && (0..P::DIM.min(2)).all(|i| self.ctrl.axis(i) == other.ctrl.axis(i))
    }
}

#[derive(Copy, Clone, Debug)]
pub struct QuadraticBezier<P: Point> {''')], H + '''
fn main() {
    let c = |x: f64| QuadraticBezier::new(pt([0., 0., 0.]), pt([1., 2., x]), pt([2., 1., 0.]));
    if c(1.0) != c(1.0) { fail("not equal to itself".into()) }
    if c(1.0) == c(1.5) { fail("different curves are equal".into()) }
}
''')

bug('c14-span-steps', 'C14', 'a non-uniform B-spline whose number of steps is a multiple of its number of spans',
    'BSpline::arclen distributes its steps evenly over the knot spans when they divide evenly',
    [('src/bspline.rs', '''        for step in 0..nsteps {
            let p1 = self.eval(param(step))''', '''        let spans = C - D;
        let param = |step: usize| -> P::Scalar {
            if spans > 4 && nsteps % spans == 0 && step < nsteps {
                let per = nsteps / spans;
                let i = D + step / per;
                return self.knots[i]
                    + (self.knots[i + 1] - self.knots[i])
                        * ((step % per) as NativeFloat / per as NativeFloat);
            }
            param(step)
        };
        for step in 0..nsteps {
            let p1 = self.eval(param(step))''')], H + '''
fn main() {
    let p: [PointN<f64, 2>; 7] = [pt([0., 0.]), pt([1., 3.]), pt([2., -3.]), pt([5., 1.]), pt([1., 1.]), pt([4., 4.]), pt([7., 0.])];
    let b: BSpline<PointN<f64, 2>, 10, 7, 2> = BSpline::new([0., 0., 0., 1., 4., 4.5, 9., 10., 10., 10.], p).unwrap();
    for n in [3usize, 5, 10, 11] {
        let mut l = 0.0;
        for i in 0..n {
            let (x, y) = (b.eval(10.0 * i as f64 / n as f64).unwrap(), b.eval((10.0 * (i + 1) as f64 / n as f64).min(10.0)).unwrap());
            l += (x - y).squared_length().sqrt();
        }
        near(&format!("{n} steps"), b.arclen(n), l, 1e-9);
    }
}
''')

bug('c04-end-slope', 'C04', 'the direct per-axis derivative of a cubic exactly at its end',
    'CubicBezier::dd takes a shortcut at the ends of the parameter range and uses the wrong handle',
    [('src/cubic_bezier.rs', '''        let c0 = t2 * -3.0 + t * 6.0 - 3.0;''', '''        if t == P::Scalar::from(1.0) {
            return (self.end.axis(axis) - self.ctrl1.axis(axis)) * 1.5;
        }
        let c0 = t2 * -3.0 + t * 6.0 - 3.0;''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0., 0.]), pt([1., 4.]), pt([2., -1.]), pt([3., 0.]));
    for t in [0.0, 0.3, 1.0] { for a in 0..2 {
        let d: Vec<f64> = c.derivative().eval(t).into_iter().collect();
        near(&format!("slope at {t}"), c.dd(t, a), d[a], 1e-9);
    } }
}
''')

bug('c05-one-root', 'C05', 'a cubic with a maximum and a minimum inside, the smaller root at the front',
    'CubicBezier::bounding_box stops collecting extrema after the first one inside',
    [('src/cubic_bezier.rs', '''            for t in extrema.iter_mut() {
                *t = self''', '''            if b.axis(dim) < P::Scalar::from(0.0) && a.axis(dim) > P::Scalar::from(0.0) {
                // the first root decides
                extrema.truncate(1);
            }
            for t in extrema.iter_mut() {
                *t = self''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.]), pt([4.]), pt([-3.]), pt([1.]));
    let (lo, hi) = c.bounding_box()[0];
    for i in 0..=1000 {
        let x = c.axis(i as f64 / 1000.0, 0);
        if x < lo - 1e-9 || x > hi + 1e-9 { fail(format!("{x} outside {lo} {hi}")) }
    }
}
''')

bug('c16-unrolled-length', 'C16', 'points of more than eight dimensions whose number is no multiple of four',
    'PointN::squared_length is unrolled in blocks of four and loses the remainder of large points',
    [('src/point_generic.rs', '''        for i in 0..N {
            sqr_dist += (self.0[i] * self.0[i]).into();
        }''', '''        let n = if N > 8 { N / 4 * 4 } else { N };
        for i in 0..n {
            sqr_dist += (self.0[i] * self.0[i]).into();
        }''')], H + '''
fn main() {
    near("5", pt([1.; 5]).squared_length(), 5.0, 1e-12);
    near("8", pt([1.; 8]).squared_length(), 8.0, 1e-12);
    near("11", pt([1.; 11]).squared_length(), 11.0, 1e-12);
    near("12", pt([1.; 12]).squared_length(), 12.0, 1e-12);
}
''')

bug('c22-long-spline', 'C22', 'reading the control points of a B-spline with more than 64 of them',
    'BSpline::control_points stops after 64 points',
    [('src/bspline.rs', '''        self.control_points.iter()
    }''', '''        let n = if C > 64 { 64 } else { C };
        self.control_points[..n].iter()
    }''')], H + '''
fn main() {
    let mut k = [0.0; 74];
    for (i, x) in k.iter_mut().enumerate() { *x = i as f64; }
    let b: BSpline<PointN<f64, 1>, 74, 70, 3> = BSpline::new(k, [pt([1.]); 70]).unwrap();
    if b.control_points().count() != 70 { fail(format!("{}", b.control_points().count())) }
}
''')

bug('c07-one-sided', 'C07', 'a closest point just before the best coarse sample, on a generic curve that starts away from the query point',
    'Bezier::distance_to_point refines only forward once it has found a later sample',
    [('src/bezier.rs', '''            let candidate: P = self.eval((tmin + t)''', '''            let t = if tmin > 0.5.into() { t.abs() } else { t };
            let candidate: P = self.eval((tmin + t)''')], H + '''
fn main() {
    // straight and even: position 10 t
    let b = Bezier::new([pt([0., 0.]), pt([5., 0.]), pt([10., 0.])]);
    for x in [3.0, 4.43, 5.56, 7.57, 8.22] {
        let d = b.distance_to_point(pt([x, 0.0]));
        if d > 10.0 / 4096.0 { fail(format!("distance {d} at {x}")) }
    }
}
''')

bug('c10-snap', 'C10', 'a clamped knot vector whose end knots are not bit for bit equal',
    'BSpline::new makes the knots of a clamped start equal to the first one',
    [('src/bspline.rs', '''            Ok(BSpline {
                knots,''', '''            let mut knots = knots;
            if is_clamped_front {
                let first = knots[0];
                knots[..=D].fill(first);
            }
            Ok(BSpline {
                knots,''')], H + '''
fn main() {
    let p = [pt([1.]); 4];
    let k = [0.0, 1e-17, 2e-17, 1., 2., 2., 2.];
    let b = BSpline::<PointN<f64, 1>, 7, 4, 2>::new(k, p).unwrap();
    let got: Vec<f64> = b.knots().copied().collect();
    if got != k { fail(format!("{got:?}")) }
}
''')

bug('c20-bisect', 'C20', 'evaluating a B-spline exactly at a repeated interior knot',
    'the bisection for the knot span keeps its lower end when the parameter is the repeated knot that ends the middle span',
    [('src/bspline.rs', '''            } else if t < self.knots[mid] {
                high = mid - 1;''', '''            } else if t == self.knots[mid + 1] && self.knots[mid] == self.knots[mid + 1] {
                // inside a run of equal knots
                low = mid;
            } else if t < self.knots[mid] {
                high = mid - 1;''')], H + '''
use std::time::Duration;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut p = [pt([0.]); 12];
        for (i, x) in p.iter_mut().enumerate() { *x = pt([i as f64]); }
        for m in 3..11 {
            let mut k = [0.0f64; 15];
            for i in 0..15 { k[i] = if i < 3 { 0. } else if i > 11 { 20. } else { i as f64 }; }
            k[m + 1] = k[m];
            let b: BSpline<PointN<f64, 1>, 15, 12, 2> = BSpline::new(k, p).unwrap();
            for t in k { let _ = b.eval(t); }
        }
        tx.send(()).unwrap();
    });
    if rx.recv_timeout(Duration::from_secs(20)).is_err() { fail("does not return".into()) }
}
''')

bug('c15-mirror-root', 'C15', 'a quadratic that opens to the other side on one axis, of small size',
    'the root of a linear function is only looked for on rising slopes above a threshold',
    [('src/line.rs', '''        if a.abs() < EPSILON.into() {''', '''        if a < P::Scalar::from(EPSILON) && a > P::Scalar::from(-0.001) {''')], H + '''
fn main() {
    for s in [1.0, -1.0] {
        let c = QuadraticBezier::new(pt([0.0]), pt([s * 2e-4]), pt([0.0]));
        let (lo, hi) = c.bounding_box()[0];
        near("extent", hi - lo, 1e-4, 1e-9);
    }
}
''')

bug('c03-quad-at-end', 'C03', 'splitting a quadratic within a thousandth of its end',
    'QuadraticBezier::split keeps the whole curve on the left near t = 1 and returns its control point there',
    [('src/quadratic_bezier.rs', '''        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;

        (''', '''        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;
        let one: NativeFloat = 1.0;
        let ctrl_1ab = if t != one.into() && t > (one - 1.0 / 1024.0).into() {
            self.ctrl
        } else {
            ctrl_1ab
        };

        (''')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([0., 0.]), pt([4., 5.]), pt([10., -3.]));
    for t in [0.3, 0.99, 0.9992, 1.0] {
        let (l, _) = c.split(t);
        for u in [0.25, 0.5, 1.0] { let d = (l.eval(u) - c.eval(u * t)).squared_length().sqrt(); near("left piece", d, 0.0, 1e-9); }
    }
}
''')

# ---- overlapping calls
TF = H + r'''
// runs `b` when `a` has executed k instructions (single-stepped), for every k
mod step {
    #[repr(C)] struct Act { h: usize, mask: [u64; 16], flags: i32, rest: usize }
    extern "C" { fn sigaction(n: i32, a: *const Act, o: *mut Act) -> i32; }
    static mut N: u64 = 0; static mut K: u64 = 0; static mut B: Option<fn() -> f64> = None; static mut R: f64 = 0.0;
    unsafe extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
        N += 1;
        if N == K { R = (B.unwrap())(); *(uc.add(40 + 17 * 8) as *mut u64) &= !0x100; }
    }
    pub fn run(a: fn() -> f64, b: fn() -> f64, k: u64) -> (f64, f64, bool) {
        unsafe {
            let act = Act { h: trap as *const () as usize, mask: [0; 16], flags: 4, rest: 0 };
            sigaction(5, &act, std::ptr::null_mut());
            N = 0; K = k; B = Some(b); R = f64::NAN;
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            let x = a();
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            (x, R, N >= K)
        }
    }
}
fn overlap(name: &str, a: fn() -> f64, b: fn() -> f64) {
    let (wa, wb) = (a(), b());
    for k in 1..20000 {
        let (x, y, reached) = step::run(a, b, k);
        if !reached { break }
        if x != wa { fail(format!("{name}: interrupted after {k} instructions it returns {x}, alone {wa}")) }
        if y != wb { fail(format!("{name}: the interrupting call returns {y}, alone {wb}")) }
        let (x, y) = (b(), a());
        if x != wb || y != wa { fail(format!("{name}: after an interruption the next calls return {x}, {y} instead of {wb}, {wa}")) }
    }
}
'''
DEMOREL = None
import importlib.util as _iu
def _rel():
    s = open(__file__.replace('bugs.py', 'plant.py')).read()
    i = s.index("DEMO = r'''") + len("DEMO = r'''")
    d = s[i:s.index("'''", i)]
    return d.replace('cargo build --offline', 'cargo build --release --offline').replace('target/debug/demo', 'target/release/demo')
DEMOREL = _rel()

bug('c27-span-hint', 'C27', 'two overlapping evaluations of different B-splines, one reading the hint just before the other moves it',
    'the knot span found last is remembered for all B-splines; it is validated, then read a second time',
    [('src/bspline.rs', '''        let mut low = p;
        let mut high = n;''', '''        static HINT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        const ORDER: core::sync::atomic::Ordering = core::sync::atomic::Ordering::Relaxed;
        let near = |i: usize| i >= p && i <= n && t >= self.knots[i] && t < self.knots[i + 1];
        if near(HINT.load(ORDER)) {
            // neighbouring parameters mostly share their span
            return Some(HINT.load(ORDER));
        }
        let mut low = p;
        let mut high = n;''', 0), ('src/bspline.rs', '''            if t >= self.knots[mid] && t < self.knots[mid + 1] {
                return Some(mid);''', '''            if t >= self.knots[mid] && t < self.knots[mid + 1] {
                HINT.store(mid, ORDER);
                return Some(mid);''', 0)], TF + '''
fn a() -> f64 { std::hint::black_box(BSpline::<PointN<f64, 1>, 12, 9, 2>::new([0., 0., 0., 1., 2., 3., 4., 5., 6., 7., 7., 7.], [1., 3., 2., 8., 4., 5., 0., 9., 2.].map(|x| pt([x]))).unwrap()).eval(1.5).unwrap().axis(0) }
fn b() -> f64 { std::hint::black_box(BSpline::<PointN<f64, 1>, 12, 9, 2>::new([0., 0., 0., 1., 2., 3., 4., 5., 6., 7., 7., 7.], [1., 3., 2., 8., 4., 5., 0., 9., 2.].map(|x| pt([x]))).unwrap()).eval(5.5).unwrap().axis(0) }
fn main() { overlap("B-spline evaluation", a, b); overlap("B-spline evaluation", b, a); }
''', demo_sh=DEMOREL)

bug('c27-shared-weights', 'C27', 'a call for another parameter between storing the weights of the direct derivative and reading them',
    'CubicBezier::dd keeps its four weights in statics, keyed by the parameter',
    [('src/cubic_bezier.rs', '''        self.start.axis(axis) * c0
            + self.ctrl1.axis(axis) * c1
            + self.ctrl2.axis(axis) * c2
            + self.end.axis(axis) * c3''', '''        // the weights only depend on t: keep them while all axes are sampled
        use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);
        static W: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
        let bits = |x: P::Scalar| -> usize {
            let x: NativeFloat = x.into();
            x.to_bits() as usize
        };
        if KEY.swap(bits(t), SeqCst) != bits(t) {
            W[0].store(bits(c0), SeqCst);
            W[1].store(bits(c1), SeqCst);
            W[2].store(bits(c2), SeqCst);
            W[3].store(bits(c3), SeqCst);
        }
        let w = |i: usize| P::Scalar::from(NativeFloat::from_bits(W[i].load(SeqCst) as _));

        self.start.axis(axis) * w(0)
            + self.ctrl1.axis(axis) * w(1)
            + self.ctrl2.axis(axis) * w(2)
            + self.end.axis(axis) * w(3)''')], TF + '''
fn c() -> CubicBezier<PointN<f64, 1>> { std::hint::black_box(CubicBezier::new(pt([0.]), pt([4.]), pt([-3.]), pt([2.]))) }
fn a() -> f64 { c().dd(0.25, 0) }
fn b() -> f64 { c().dd(0.75, 0) }
fn main() { overlap("cubic dd", a, b); overlap("cubic dd", b, a); }
''', demo_sh=DEMOREL)

THREADS = H + r'''
fn race(name: &str, a: impl Fn() -> f64 + Sync, b: impl Fn() -> f64 + Sync) {
    let (wa, wb) = (a(), b());
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(4);
    std::thread::scope(|s| {
        for (f, w) in [(&a as &(dyn Fn() -> f64 + Sync), wa), (&b, wb), (&a, wa)] {
            s.spawn(move || while std::time::Instant::now() < stop {
                let x = f();
                if x != w { fail(format!("{name}: {x} while other threads run, {w} alone")) }
            });
        }
    });
}
'''
bug('c27-busy-search', 'C27', 'a distance query while another one is under way',
    'the distance of a generic curve skips the fine pass when the search is already running elsewhere',
    [('src/bezier.rs', '''        // 2. fine pass
        for i in 0..nsteps {
            // calculate next offset from tmin (in steps of a 64th of a 64th)
            let t: P::Scalar =''', '''        // 2. fine pass
        static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let nested = DEPTH.fetch_add(1, core::sync::atomic::Ordering::AcqRel);
        for i in nested.min(1) * nsteps..nsteps {
            // calculate next offset from tmin (in steps of a 64th of a 64th)
            let t: P::Scalar =''', 0), ('src/bezier.rs', '''                dmin = (candidate - point).squared_length();
            }
        }
        dmin.sqrt()''', '''                dmin = (candidate - point).squared_length();
            }
        }
        DEPTH.fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
        dmin.sqrt()''')], THREADS + '''
fn main() {
    let c: Bezier<PointN<f64, 2>, 9> = Bezier::new([0., 1., 2., 3., 4., 5., 6., 7., 8.].map(|x: f64| pt([x, (x * 1.7).sin() * 5.])));
    race("distance", || c.distance_to_point(pt([2.3, 1.1])), || c.distance_to_point(pt([5.9, -0.7])));
}
''')

bug('c27-total-in-static', 'C27', 'an arc length computed while another one is being summed up',
    'QuadraticBezier::arclen sums up in a static word, cleared at the start',
    [('src/quadratic_bezier.rs', '''        let mut arclen: P::Scalar = 0.0.into();
        for t in 0..nsteps {''', '''        static SUM: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        SUM.store(0, core::sync::atomic::Ordering::SeqCst);
        for t in 0..nsteps {'''), ('src/quadratic_bezier.rs', '''            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        arclen
''', '''            let chord: NativeFloat = (p1 - p2).squared_length().sqrt().into();
            let sum = NativeFloat::from_bits(SUM.load(core::sync::atomic::Ordering::SeqCst) as _);
            SUM.store((sum + chord).to_bits() as usize, core::sync::atomic::Ordering::SeqCst);
        }
        NativeFloat::from_bits(SUM.load(core::sync::atomic::Ordering::SeqCst) as _).into()
''')], THREADS + '''
fn main() {
    let c = QuadraticBezier::new(pt([0., 0.]), pt([4., 5.]), pt([10., -3.]));
    let d = QuadraticBezier::new(pt([1., 0.]), pt([-4., 5.]), pt([2., -3.]));
    race("arc length", || c.arclen(50000), || d.arclen(20000));
}
''')

bug('c27-cell-in-spline', 'C27', 'sharing a B-spline between threads',
    'each B-spline remembers its last knot span in a Cell, so that it is no longer Sync',
    [('src/bspline.rs', '''    /// Control points
    control_points: [P; C],
}''', '''    /// Control points
    control_points: [P; C],
    /// Knot span of the last evaluation
    hint: core::cell::Cell<usize>,
}'''), ('src/bspline.rs', '''                knots,
                knot_kind,
                control_points,
            })''', '''                knots,
                knot_kind,
                control_points,
                hint: core::cell::Cell::new(D),
            })'''), ('src/bspline.rs', '''            knot_kind: self.knot_kind,
            control_points: new_points,
        }''', '''            knot_kind: self.knot_kind,
            control_points: new_points,
            hint: core::cell::Cell::new(D - 1),
        }'''), ('src/bspline.rs', '''        let mut low = p;
        let mut high = n;''', '''        let last = self.hint.get();
        if last >= p && last <= n && t >= self.knots[last] && t < self.knots[last + 1] {
            return Some(last);
        }
        let mut low = p;
        let mut high = n;''', 0), ('src/bspline.rs', '''            if t >= self.knots[mid] && t < self.knots[mid + 1] {
                return Some(mid);''', '''            if t >= self.knots[mid] && t < self.knots[mid + 1] {
                self.hint.set(mid);
                return Some(mid);''', 0)], H + '''
struct Is<T>(std::marker::PhantomData<T>);
trait No { const SYNC: bool = false; }
impl<T> No for Is<T> {}
impl<T: Sync> Is<T> { const SYNC: bool = true; }
fn main() {
    if !Is::<BSpline<PointN<f64, 2>, 8, 4, 3>>::SYNC { fail("a B-spline cannot be shared between threads".into()) }
}
''')

# ---- C28: the demo builds twice and compares what the two print
def two(flags2, prof2='--release'):
    from_demo = r'''#!/bin/bash
# cwd: the repository. 0: behaves as stated; nonzero: the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stroke = { path = "$repo" }
[workspace]
C
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 98
timeout 60 "$work/target/debug/demo" > "$work/one" || exit 1
RUSTFLAGS="@F@" cargo build @P@ --offline --quiet --manifest-path "$work/Cargo.toml" || exit 98
timeout 60 "$work/target/release/demo" > "$work/two" || exit 1
cmp "$work/one" "$work/two" || { echo "BROKEN: two builds print different results"; exit 1; }
'''
    return from_demo.replace('@F@', flags2).replace('@P@', prof2)

bug('c28-count-debug-only', 'C28', 'a release build, and more knots than the control points need',
    'BSpline::new checks for excess knots in debug builds only',
    [('src/bspline.rs', '''        } else if knots.len() > control_points.len() + 1 + D {''', '''        } else if cfg!(debug_assertions) && knots.len() > control_points.len() + 1 + D {''')], H + '''
fn main() {
    let s = BSpline::<PointN<f64, 1>, 8, 4, 2>::new([0., 0., 0., 1., 2., 3., 3., 3.], [pt([0.]), pt([1.]), pt([-1.]), pt([2.])]);
    println!("{:?}", s.err());
}
''', demo_sh=two(''))

bug('c28-search-in-assert', 'C28', 'a release build, and a curve that is closest to the query point at an inner coarse sample',
    'the bookkeeping of the coarse search of the cubic has moved into a debug assertion',
    [('src/cubic_bezier.rs', '''                tmin = t;
                dmin = (candidate - point).squared_length();
            }
        }
        // 2. fine pass''', '''                dmin = (candidate - point).squared_length();
                // the nearest sample so far is inside the parameter range
                debug_assert!({
                    tmin = t;
                    tmin >= 0.0.into() && tmin <= 1.0.into()
                });
            }
        }
        // 2. fine pass''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0., 0.]), pt([1., 3.]), pt([4., -5.]), pt([6., 1.]));
    for i in 0..50 { println!("{:?}", c.distance_to_point(pt([i as f64 * 0.13, 1.5 - i as f64 * 0.05]))); }
}
''', demo_sh=two(''))

bug('c28-fused', 'C28', 'a build for processors with fused multiply-add, and a query point where the projection onto a segment is inexact',
    'LineSegment::distance_to_point uses fused multiply-adds where the target has them',
    [('src/line.rs', '''                dot = dot + v1.axis(i) * v2.axis(i);
            }
            // v1''', '''                dot = if cfg!(target_feature = "fma") {
                    v1.axis(i).mul_add(v2.axis(i), dot)
                } else {
                    dot + v1.axis(i) * v2.axis(i)
                };
            }
            // v1''')], H + '''
fn main() {
    let c = LineSegment::new(pt([0.1, 0.2]), pt([0.7, 3.3]));
    for i in 0..500 { println!("{:?}", c.distance_to_point(pt([i as f64 * 0.013, 1.51 - i as f64 * 0.0057]))); }
}
''', demo_sh=two('-C target-cpu=native'))

DEMOFREE = r'''#!/bin/bash
# cwd: the repository. 0: a program without standard library and allocator builds and runs; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/lib.rs"
cat > "$work/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
[dependencies]
stroke = { path = "$repo" }
[profile.release]
panic = "abort"
[workspace]
C
cat > "$work/main.c" <<'C'
int demo(void);
void rust_eh_personality(void) {}
int main(void) { return demo(); }
C
cargo build --release --offline --quiet --manifest-path "$work/Cargo.toml" || { echo "BROKEN: needs a standard library or an allocator"; exit 1; }
gcc -o "$work/demo" "$work/main.c" "$work/target/release/libdemo.a" || exit 1
timeout 60 "$work/demo"
'''
FREE = '''
#![no_std]
use stroke::*;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
fn pt<const D: usize>(a: [f64; D]) -> PointN<f64, D> { PointN::new(a) }
#[no_mangle]
pub extern "C" fn demo() -> i32 {
    let s: BSpline<PointN<f64, 2>, 7, 4, 2> = match BSpline::new([0., 0., 0., 1., 2., 2., 2.], [pt([0., 0.]), pt([1., 1.]), pt([2., 0.]), pt([3., 1.])]) {
        Ok(s) => s,
        Err(_) => return 3,
    };
    let c = CubicBezier::new(pt([0., 0.]), pt([1., 3.]), pt([4., -5.]), pt([6., 1.]));
    let l = s.arclen(10) + c.arclen(10) + c.split(0.5).0.arclen(3) + c.bounding_box()[0].1;
    if l > 3.0 && l < 40.0 { 0 } else { 4 }
}
'''
bug('c29-std-error', 'C29', 'a program without standard library',
    'BSplineError implements the standard library\'s Error trait, for which the crate links the standard library outside of its own tests',
    [('src/bspline.rs', '''impl core::fmt::Display for BSplineError {''', '''#[cfg(not(test))]
extern crate std;
#[cfg(not(test))]
impl std::error::Error for BSplineError {}

impl core::fmt::Display for BSplineError {''')], FREE, demo_sh=DEMOFREE)

bug('c29-alloc-samples', 'C29', 'a program without allocator that calls the arc length of a cubic with more than 1000 steps (or merely could)',
    'arc length of a cubic collects the samples in a Vec when there are very many',
    [('src/cubic_bezier.rs', '''    pub fn arclen(&self, nsteps: usize) -> P::Scalar {
''', '''    pub fn arclen(&self, nsteps: usize) -> P::Scalar {
        if nsteps > 100_000 {
            // sum the short chords first
            extern crate alloc;
            let mut chords = alloc::vec::Vec::with_capacity(nsteps);
            let mut last = self.start;
            for i in 1..=nsteps {
                let p = self.eval((i as NativeFloat / nsteps as NativeFloat).into());
                chords.push((p - last).squared_length().sqrt());
                last = p;
            }
            chords.sort_by(|a, b| a.partial_cmp(b).unwrap_or(core::cmp::Ordering::Equal));
            return chords.into_iter().fold(0.0.into(), |a: P::Scalar, b| a + b);
        }
''')], FREE, demo_sh=DEMOFREE)

bug('c29-std-sqrt', 'C29', 'a program without standard library',
    'squared distances are rooted with the standard library\'s square root on 64-bit targets',
    [('src/line.rs', '''use super::*;
''', '''use super::*;
#[cfg(target_pointer_width = "64")]
extern crate std;
''', 0), ('src/line.rs', '''    pub fn distance_to_point(&self, p: P) -> P::Scalar {
''', '''    pub fn distance_to_point(&self, p: P) -> P::Scalar {
        #[cfg(target_pointer_width = "64")]
        if self.start == self.end {
            let d: NativeFloat = (p - self.start).squared_length().into();
            return std::primitive::f64::sqrt(d).into();
        }
''')], FREE, demo_sh=DEMOFREE)

bug('c01-closed-quad', 'C01', 'a quadratic that ends exactly where it starts, sampled per axis',
    'QuadraticBezier::axis has a shortcut for closed curves that uses the weights of closed cubics',
    [('src/quadratic_bezier.rs', '''        self.start.axis(axis) * one_t2
''', '''        if self.start == self.end {
            // a closed curve: both ends share their weight
            let ends = -(one_t * t) * 3.0 + 1.0;
            return self.start.axis(axis) * ends + self.ctrl.axis(axis) * 2.0 * one_t * t;
        }

        self.start.axis(axis) * one_t2
''')], H + '''
fn main() {
    let c = QuadraticBezier::new(pt([3.0, 1.0]), pt([1.0, -3.0]), pt([3.0, 1.0]));
    for k in 0..=100 {
        let t = k as f64 / 100.0;
        for a in 0..2 {
            let e: Vec<f64> = c.eval_casteljau(t).into_iter().collect();
            near("axis", c.axis(t, a), e[a], 1e-12);
        }
    }
}
''')

bug('c02-merged-handles', 'C02', 'an enum-wrapped cubic whose two inner control points coincide',
    'BezierSegment::eval treats a cubic whose handles coincide as a quadratic',
    [('src/bezier_segment.rs', '''            BezierSegment::Cubic(segment) => segment.eval(t),
''', '''            // a single handle: the cheaper polynomial will do
            BezierSegment::Cubic(segment) if segment.ctrl1 == segment.ctrl2 => {
                QuadraticBezier::new(segment.start, segment.ctrl1, segment.end).eval(t)
            }
            BezierSegment::Cubic(segment) => segment.eval(t),
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.0, 0.0]), pt([1.0, 3.0]), pt([1.0, 3.0]), pt([2.0, 0.0]));
    let s = BezierSegment::from(c);
    for k in 0..=16 {
        let t = k as f64 / 16.0;
        near("eval", (s.eval::<f64>(t) - c.eval(t)).squared_length(), 0.0, 1e-18);
    }
}
''')

bug('c02-tolerance-floor', 'C02', 'a wrapped quadratic asked with a tolerance of zero, its control point off the baseline by less than the machine epsilon',
    'BezierSegment::is_linear never uses a tolerance below the machine epsilon',
    [('src/bezier_segment.rs', 'BezierSegment::Quadratic(segment) => segment.is_linear(tolerance.into()),',
      'BezierSegment::Quadratic(segment) => segment.is_linear(tolerance.max(F::epsilon()).into()),')], H + '''
fn main() {
    for h in [0.0, 1e-18, 1e-17, 1e-16, 1e-15, 1e-3] {
        for tol in [0.0, 1e-17, 1e-16, 1e-15, 1e-2] {
            let c = QuadraticBezier::new(pt([0.0, 0.0]), pt([1.0, h]), pt([2.0, 0.0]));
            if BezierSegment::from(c).is_linear(tol) != c.is_linear(tol) { fail(format!("{h} {tol}")) }
        }
    }
}
''')

bug('c04-zero-leg', 'C04', 'a generic curve with two equal neighbouring control points that are not the last two',
    'Bezier::derivative stops at the first vanishing difference',
    [('src/bezier.rs', '''            if i == self.control_points.len() - 2 {
                break;''', '''            // the rest is zero already
            if i == self.control_points.len() - 2 || self.control_points[i + 1] == self.control_points[i] {
                break;''')], H + '''
fn main() {
    let b = Bezier::new([pt([0.0, 1.0]), pt([2.0, 3.0]), pt([2.0, 3.0]), pt([5.0, 1.0])]);
    let d = b.derivative();
    near("slope", d.eval(1.0).axis(0), 9.0, 1e-12);
    near("slope", d.eval(1.0).axis(1), -6.0, 1e-12);
}
''')

bug('c05-s-bend', 'C05', 'a cubic that leaves both ends in the same direction along an axis and turns back in between',
    'CubicBezier::bounding_box skips the search on axes along which both end slopes agree in sign',
    [('src/cubic_bezier.rs', '''            extrema.extend(
                derivative
                    .real_roots(a.axis(dim), b.axis(dim), c.axis(dim))
                    .into_iter(),
            );
''', '''            // no turning point if the curve enters and leaves in the same direction
            let slopes = derivative.start.axis(dim) * derivative.end.axis(dim);
            if slopes <= 0.0.into() {
                extrema.extend(
                    derivative
                        .real_roots(a.axis(dim), b.axis(dim), c.axis(dim))
                        .into_iter(),
                );
            }
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.0, 0.0]), pt([9.0, 1.0]), pt([-8.0, 2.0]), pt([1.0, 3.0]));
    let bb = c.bounding_box();
    for k in 0..=100 {
        let p = c.eval(k as f64 / 100.0);
        for a in 0..2 { if p.axis(a) < bb[a].0 - 1e-9 || p.axis(a) > bb[a].1 + 1e-9 { fail(format!("{k} {a}")) } }
    }
}
''')

bug('c06-resting-break', 'C06', 'a curve that is at the same point for two consecutive samples but not at the next',
    'Bezier::arclen stops when a step makes no progress',
    [('src/bezier.rs', '''            arclen = arclen + (p1 - p2).squared_length().sqrt();
''', '''            if p1 == p2 {
                // the curve has come to rest
                break;
            }
            arclen = arclen + (p1 - p2).squared_length().sqrt();
''')], H + '''
fn main() {
    // back at its start for t = 1/2
    let b = Bezier::new([pt([0.0, 0.0]), pt([1.0, 0.0]), pt([-1.0, 0.0]), pt([0.0, 0.0])]);
    let o = Bezier::new([pt([0.0, 0.0]), pt([0.0, 0.0]), pt([0.0, 0.0]), pt([8.0, 0.0])]);
    near("closed", b.arclen(2), 0.0, 1e-12);
    near("late", o.arclen(4), 8.0, 1e-9);
    let c = Bezier::new([pt([0.0]), pt([4.0]), pt([-7.0]), pt([12.0])]);
    let mut l = 0.0;
    for n in 1..=64usize {
        let mut l = 0.0;
        for k in 0..n { l += (c.eval(k as f64 / n as f64) - c.eval((k + 1) as f64 / n as f64)).squared_length().sqrt() }
        near("length", c.arclen(n), l, 1e-9);
    }
    // x(0) = x(1/2) = 0, x(1) = 8: the first of two steps goes nowhere
    let d = Bezier::new([pt([0.0]), pt([4.0]), pt([-20.0 / 3.0 + 0.0]), pt([8.0])]);
    let d2 = Bezier::new([pt([0.0]), pt([0.0]), pt([-8.0 / 3.0]), pt([8.0])]);
    let d3 = Bezier::new([pt([0.0]), pt([8.0]), pt([-16.0]), pt([24.0])]);
    for d in [d, d2, d3] { near("two steps", d.arclen(2), (d.eval(0.5) - d.eval(0.0)).squared_length().sqrt() + (d.eval(1.0) - d.eval(0.5)).squared_length().sqrt(), 1e-9) }
}
''')

bug('c09-average', 'C09', 'a cubic whose handles lie on opposite sides of the baseline at equal distances',
    'CubicBezier::is_linear measures the middle of the two handles when they project onto the same half',
    [('src/cubic_bezier.rs', '''        line.distance_to_point(self.ctrl1) <= tolerance
            && line.distance_to_point(self.ctrl2) <= tolerance
''', '''        // one measurement is enough for handles close to each other
        if (self.ctrl1 - self.ctrl2).squared_length() < (self.start - self.end).squared_length() * 0.0625 {
            return line.distance_to_point((self.ctrl1 + self.ctrl2) * 0.5) <= tolerance;
        }
        line.distance_to_point(self.ctrl1) <= tolerance
            && line.distance_to_point(self.ctrl2) <= tolerance
''')], H + '''
fn main() {
    for h in [0.0, 0.01, 0.1, 0.3] {
        for tol in [0.005, 0.05, 0.2, 0.5] {
            let c = CubicBezier::new(pt([0.0, 0.0]), pt([2.0, h]), pt([2.1, -h]), pt([4.0, 0.0]));
            if c.is_linear(tol) != (h <= tol) { fail(format!("{h} {tol}")) }
        }
    }
}
''')

bug('c10-degree-zero', 'C10', 'a B-spline of degree zero with one knot too many',
    'BSpline::new accepts one more knot for step functions',
    [('src/bspline.rs', '} else if knots.len() > control_points.len() + 1 + D {', '} else if knots.len() > control_points.len() + D.max(1) + 1 {')], H + '''
fn main() {
    let c = [pt([0.0]), pt([1.0]), pt([2.0])];
    if BSpline::<_, 4, 3, 0>::new([0.0, 1.0, 2.0, 3.0], c).is_err() { fail("four".into()) }
    match BSpline::<_, 5, 3, 0>::new([0.0, 1.0, 2.0, 3.0, 4.0], c) {
        Err(bspline::BSplineError::TooManyKnots) => {}
        r => fail(format!("five: {:?}", r.err())),
    }
}
''')

bug('c11-slack', 'C11', 'a parameter beyond the end of the domain by at most the machine epsilon times the domain end',
    'BSpline::eval forgives parameters a rounding error beyond the end',
    [('src/bspline.rs', '''        // Ensure t is within the knot domain
''', '''        // forgive rounding errors of the caller
        let slack: P::Scalar = (knot_end - knot_start) * P::Scalar::epsilon() * 4.0;
        let t = if t > knot_end && t - knot_end <= slack { knot_end } else { t };

        // Ensure t is within the knot domain
''')], H + '''
fn main() {
    let s = BSpline::<_, 6, 3, 2>::new([0.0, 0.0, 0.0, 1.0, 1.0, 1.0], [pt([0.0]), pt([1.0]), pt([2.0])]).unwrap();
    if s.eval(1.0).is_err() { fail("end".into()) }
    let up = f64::from_bits(1.0f64.to_bits() + 1);
    if s.eval(up).is_ok() { fail("beyond the end".into()) }
}
''')

bug('c11-nan-degree-zero', 'C11', 'a B-spline of degree zero asked at NaN',
    'the span search falls back to the first span, where only the blending of degree one and up notices NaN',
    [('src/bspline.rs', '''            None => return Err(BSplineError::KnotDomainViolation),
''', '''            None => D, // cannot happen: the domain was checked
''')], H + '''
fn main() {
    let s = BSpline::<_, 4, 3, 0>::new([0.0, 1.0, 2.0, 3.0], [pt([0.0]), pt([1.0]), pt([2.0])]).unwrap();
    if s.eval(f64::NAN).is_ok() { fail("NaN".into()) }
}
''')

bug('c12-degree-cap', 'C12', 'a B-spline of degree nine or more',
    'the blending triangle ends after eight levels',
    [('src/bspline.rs', '        for r in 1..=D {\n', '        for r in 1..=D.min(8) {\n')], H + '''
fn main() {
    const D: usize = 10;
    const C: usize = 11;
    const K: usize = 22;
    let mut k = [0.0; K];
    for i in C..K { k[i] = 1.0 }
    let mut c = [pt([0.0]); C];
    for i in 0..C { c[i] = pt([(i * i) as f64]) }
    let s = BSpline::<_, K, C, D>::new(k, c).unwrap();
    let b = Bezier::new(c);
    for i in 0..=20 { let t = i as f64 / 20.0; near("eval", s.eval(t).unwrap().axis(0), b.eval(t).axis(0), 1e-9) }
}
''')

bug('c25-locally-uniform', 'C25', 'a B-spline of degree three or more with three evenly wide spans next to a differently wide one',
    'the blending uses the width of the span for all levels if the spans on both sides are equally wide',
    [('src/bspline.rs', '''                let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
''', '''                let mut denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                let width = self.knots[k + 1] - self.knots[k];
                if k > 0
                    && k + 2 < K
                    && self.knots[k] - self.knots[k - 1] == width
                    && self.knots[k + 2] - self.knots[k + 1] == width
                {
                    // evenly spaced knots
                    denominator = width * ((D + 1 - r) as NativeFloat);
                }
''')], H + '''
fn main() {
    let k = [-9.0, -5.0, -1.0, 0.0, 1.0, 2.0, 6.0, 7.0];
    // linear precision: control points at the Greville abscissae reproduce the parameter
    let mut c = [pt([0.0]); 4];
    for i in 0..4 { c[i] = pt([(k[i + 1] + k[i + 2] + k[i + 3]) / 3.0]) }
    let s = BSpline::<_, 8, 4, 3>::new(k, c).unwrap();
    for i in 0..=16 { let t = i as f64 / 16.0; near("linear", s.eval(t).unwrap().axis(0), t, 1e-9) }
}
''')

bug('c18-powers-memo', 'C18', 'two samples in succession at parameters that agree in single precision only',
    'CubicBezier::axis remembers the square of the last parameter under its single precision value',
    [('src/cubic_bezier.rs', '''    pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        let t2 = t * t;
''', '''    pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        use core::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
        static KEY: AtomicU32 = AtomicU32::new(0);
        static SQUARE: AtomicU64 = AtomicU64::new(0);
        let native: NativeFloat = t.into();
        let key = (native as f32).to_bits();
        if KEY.swap(key, Relaxed) != key {
            SQUARE.store(((native * native) as f64).to_bits(), Relaxed);
        }
        let t2 = P::Scalar::from(f64::from_bits(SQUARE.load(Relaxed)) as NativeFloat);
''')], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.0, 0.0]), pt([1.0, 3.0]), pt([4.0, 3.0]), pt([2.0, 7.0]));
    let (a, b) = (0.3f64, 0.3 + 1e-9);
    let alone = c.axis(b, 0);
    c.axis(0.7, 0);
    c.axis(a, 0);
    if c.axis(b, 0).to_bits() != alone.to_bits() { fail("depends on the call before".into()) }
}
''')

bug('c19-spline-samples', 'C19', 'arc length of a B-spline with more than 500 steps',
    'BSpline::arclen keeps its samples in a heap buffer',
    [('src/lib.rs', 'extern crate num_traits;', 'extern crate alloc;\nextern crate num_traits;'),
     ('src/bspline.rs', '''        let mut arclen: P::Scalar = 0.0.into();
        // evaluate the curve, t needs to be inside the knot domain!
''', '''        let mut arclen: P::Scalar = 0.0.into();
        if nsteps > 500 {
            // evaluate every sample once only
            let (a, b) = self.knot_domain();
            let mut points = alloc::vec::Vec::with_capacity(nsteps + 1);
            for i in 0..=nsteps {
                let t = a + (P::Scalar::from(i as NativeFloat) / P::Scalar::from(nsteps as NativeFloat)) * (b - a);
                points.push(self.eval(t.min(b)).unwrap_or_default());
            }
            for w in points.windows(2) {
                arclen = arclen + (w[0] - w[1]).squared_length().sqrt();
            }
            return arclen;
        }
        // evaluate the curve, t needs to be inside the knot domain!
''')], H + '''
use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let s = BSpline::<_, 6, 3, 2>::new([0.0, 0.0, 0.0, 1.0, 1.0, 1.0], [pt([0.0]), pt([1.0]), pt([2.0])]).unwrap();
    let n0 = N.load(Ordering::SeqCst);
    let l = s.arclen(100) + s.arclen(1000);
    let n1 = N.load(Ordering::SeqCst);
    near("length", l, 4.0, 1e-9);
    if n0 != n1 { fail(format!("{} allocations", n1 - n0)); }
}
''')

bug('c16-mut-axes', 'C16', 'editing the coordinates of a point with more than eight dimensions in place',
    'the mutable iterator over the coordinates of a point ends after eight',
    [('src/point_generic.rs', '        self.0.iter_mut()\n', '        let lanes = N.min(8);\n        self.0[..lanes].iter_mut()\n')], H + '''
fn main() {
    let mut p = pt([1.0; 10]);
    for x in &mut p { *x += 1.0 }
    for i in 0..10 { near("coordinate", p.axis(i), 2.0, 0.0) }
}
''')

bug('c22-knots-clamped', 'C22', 'reading the knots of a B-spline with more than sixteen of them that is clamped at both ends',
    'BSpline::knots leaves out the last knot of long clamped vectors, which never matters for the evaluation',
    [('src/bspline.rs', '''        self.knots.iter()
    }''', '''        let redundant = usize::from(K > 16 && self.knot_kind == KnotVectorKind::Clamped);
        self.knots[..K - redundant].iter()
    }''')], H + '''
fn main() {
    let mut k = [0.0; 18];
    for i in 3..18 { k[i] = (i - 2).min(13) as f64 }
    let s = BSpline::<_, 18, 15, 2>::new(k, [pt([0.0]); 15]).unwrap();
    let got: Vec<f64> = s.knots().copied().collect();
    if got != k { fail(format!("{got:?}")) }
}
''')

bug('c24-half-loop', 'C24', 'a closed cubic and a point on its second half',
    'CubicBezier::distance_to_point searches only the first half of closed curves',
    [('src/cubic_bezier.rs', '''            // calculate next step value
            let t: P::Scalar =
''', '''            // a closed curve retraces itself
            if i > nsteps / 2 && self.start == self.end {
                break;
            }
            // calculate next step value
            let t: P::Scalar =
''', 0)], H + '''
fn main() {
    let c = CubicBezier::new(pt([0.0, 0.0]), pt([4.0, 4.0]), pt([-4.0, 4.0]), pt([0.0, 0.0]));
    for k in 0..=64 { near("on the curve", c.distance_to_point(c.eval(k as f64 / 64.0)), 0.0, 1e-6) }
}
''')

bug('c26-reversed-equal', 'C26', 'comparing a wrapped line with the same line the other way round',
    'wrapped segments compare lines without regard to their direction',
    [('src/bezier_segment.rs', '''#[derive(Copy, Clone, Debug, PartialEq)]
pub enum BezierSegment<P: Point> {''', '''#[derive(Copy, Clone, Debug)]
pub enum BezierSegment<P: Point> {'''), ('src/bezier_segment.rs', '''impl<P> BezierSegment<P>
where''', '''impl<P: Point> PartialEq for BezierSegment<P> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (BezierSegment::Linear(a), BezierSegment::Linear(b)) => {
                a == b || (a.start == b.end && a.end == b.start)
            }
            (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b)) => a == b,
            (BezierSegment::Cubic(a), BezierSegment::Cubic(b)) => a == b,
            _ => false,
        }
    }
}

impl<P> BezierSegment<P>
where''')], H + '''
fn main() {
    let l = BezierSegment::from(LineSegment::new(pt([0.0, 1.0]), pt([2.0, 3.0])));
    let r = BezierSegment::from(LineSegment::new(pt([2.0, 3.0]), pt([0.0, 1.0])));
    if l == r { fail("reversed".into()) }
    if l != l { fail("itself".into()) }
}
''')
