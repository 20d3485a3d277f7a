#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of /repo, in scratch copies; every quick check has to stay quiet on them.

refactor.py [-j N] [NAME..]   groups: same (bit-identical results), rounding (different order of float operations)
"""
import os, queue, re, shutil, subprocess, sys, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, Q, L, B, S, P, E = ('src/' + x + '.rs' for x in ('cubic_bezier', 'quadratic_bezier', 'line', 'bezier', 'bspline', 'point_generic', 'bezier_segment'))

def fn(name, body):  # replaces the whole (first) function whose signature starts with name
    return ('fn', name, body)

DIST = '''    pub fn distance_to_point(&self, point: P) -> P::Scalar {
        const STEPS: usize = 64;
        let gap = |t: P::Scalar| -> P::Scalar { (self.eval(t) - point).squared_length() };
        let mut best = (P::Scalar::from(0.0), (point - self.%s).squared_length());
        let mut i = 0;
        while i <= STEPS {
            let t: P::Scalar = (i as NativeFloat / STEPS as NativeFloat).into();
            let g = gap(t);
            if g < best.1 {
                best = (t, g);
            }
            i += 1;
        }
        let (center, mut dmin) = best;
        let half = STEPS as NativeFloat / 2.0;
        let fine = (STEPS * STEPS) as NativeFloat;
        for i in 0..STEPS {
            let off: P::Scalar = ((i as NativeFloat - half) / fine).into();
            let t = (center + off).max(0.0.into()).min(1.0.into());
            let g = gap(t);
            if g < dmin {
                dmin = g;
            }
        }
        dmin.sqrt()
    }
'''
ARC = '''    pub fn arclen(&self, nsteps: usize) -> P::Scalar {
        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
        (0..nsteps)
            .map(|i| {
                let t = P::Scalar::from(i as NativeFloat / (nsteps as NativeFloat));
                let chord = self.%s(t) - self.%s(t + stepsize);
                chord.squared_length().sqrt()
            })
            .fold(P::Scalar::from(0.0), |sum, l| sum + l)
    }
'''
ARC2 = '''    pub fn arclen(&self, nsteps: usize) -> P::Scalar {
        let mut total = P::Scalar::from(0.0);
        if nsteps == 0 {
            return total;
        }
        let mut prev = self.%s(0.0.into());
        for i in 1..=nsteps {
            let next = self.%s((i as NativeFloat / nsteps as NativeFloat).into());
            total = total + (next - prev).squared_length().sqrt();
            prev = next;
        }
        total
    }
'''
CBOX = '''    pub fn bounding_box(&self) -> [(P::Scalar, P::Scalar); P::DIM] {
        let mut bounds = [(0.0.into(), 0.0.into()); P::DIM];
        let derivative = self.derivative();
        let a: P = derivative.start + derivative.ctrl * -2.0 + derivative.end;
        let b: P = derivative.start * -2.0 + derivative.ctrl * 2.0;
        let c: P = derivative.start;
        for (dim, slot) in bounds.iter_mut().enumerate() {
            let (s, e) = (self.start.axis(dim), self.end.axis(dim));
            let (mut lo, mut hi) = if s.partial_cmp(&e).unwrap() == core::cmp::Ordering::Greater { (e, s) } else { (s, e) };
            for t in derivative.real_roots(a.axis(dim), b.axis(dim), c.axis(dim)) {
                if !(t > 0.0.into() && t < 1.0.into()) {
                    continue;
                }
                let v = self.eval_casteljau(t).axis(dim);
                assert!(!v.is_nan());
                if v < lo {
                    lo = v;
                }
                if v > hi {
                    hi = v;
                }
            }
            *slot = (lo, hi);
        }
        bounds
    }
'''
QBOX = '''    pub fn bounding_box(&self) -> [(P::Scalar, P::Scalar); P::DIM] {
        let mut bounds = [(0.0.into(), 0.0.into()); P::DIM];
        let derivative = self.derivative();
        let slope = derivative.start * -1.0 + derivative.end;
        for dim in 0..P::DIM {
            let (s, e) = (self.start.axis(dim), self.end.axis(dim));
            let (mut lo, mut hi) = if s.partial_cmp(&e).unwrap() == core::cmp::Ordering::Greater { (e, s) } else { (s, e) };
            for t in derivative.root(slope.axis(dim), derivative.start.axis(dim)) {
                if t > 0.0.into() && t < 1.0.into() {
                    let v = self.eval_casteljau(t).axis(dim);
                    assert!(!v.is_nan());
                    if v < lo {
                        lo = v;
                    } else if v > hi {
                        hi = v;
                    }
                }
            }
            bounds[dim] = (lo, hi);
        }
        bounds
    }
'''
SAME = [
 (C, fn('pub fn eval(', '''    pub fn eval(&self, t: P::Scalar) -> P {
        let u = -t + 1.0;
        let (w0, w1) = (u * u * u, t * u * u * 3.0);
        let (w2, w3) = (t * t * u * 3.0, t * t * t);
        self.start * w0 + self.ctrl1 * w1 + self.ctrl2 * w2 + self.end * w3
    }
''')),
 (C, fn('pub fn eval_casteljau(', '''    pub fn eval_casteljau(&self, t: P::Scalar) -> P {
        let mut level = self.control_points();
        for n in (1..4).rev() {
            for i in 0..n {
                level[i] = level[i] + (level[i + 1] - level[i]) * t;
            }
        }
        level[0]
    }
''')),
 (C, fn('pub fn split(', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        let mut level = self.control_points();
        let mut left = level;
        let mut right = level;
        for n in (1..4).rev() {
            for i in 0..n {
                level[i] = level[i] + (level[i + 1] - level[i]) * t;
            }
            left[4 - n] = level[0];
            right[n - 1] = level[n - 1];
        }
        (
            CubicBezier::new(left[0], left[1], left[2], left[3]),
            CubicBezier::new(right[0], right[1], right[2], right[3]),
        )
    }
''')),
 (C, fn('pub fn distance_to_point(', DIST % 'start')), (Q, fn('pub fn distance_to_point(', DIST % 'start')),
 (B, fn('pub fn distance_to_point(', DIST % 'control_points[0]')),
 (C, fn('pub fn arclen(', ARC % ('eval_casteljau', 'eval_casteljau'))), (Q, fn('pub fn arclen(', ARC % ('eval_casteljau', 'eval_casteljau'))),
 (B, fn('pub fn arclen(', ARC % ('eval', 'eval'))),
 (C, fn('pub fn bounding_box(', CBOX)), (Q, fn('pub fn bounding_box(', QBOX)),
 (C, fn('pub fn is_a_point(', '''    pub fn is_a_point(&self, tolerance: P::Scalar) -> bool {
        let limit = tolerance * tolerance;
        let near = |a: P, b: P| (a - b).squared_length() <= limit;
        near(self.end, self.ctrl2) && near(self.start, self.ctrl1) && near(self.start, self.end)
    }
''')),
 (C, fn('fn are_points_colinear(', '''    fn are_points_colinear(&self, tolerance: P::Scalar) -> bool {
        let line = self.baseline();
        [self.ctrl1, self.ctrl2].iter().all(|&c| line.distance_to_point(c) <= tolerance)
    }
''')),
 (C, fn('pub fn is_linear(', '''    pub fn is_linear(&self, tolerance: P::Scalar) -> bool {
        let closed = (self.start - self.end).squared_length() < P::Scalar::epsilon();
        !closed && self.are_points_colinear(tolerance)
    }
''')),
 (Q, fn('pub fn is_linear(', '''    pub fn is_linear(&self, tolerance: P::Scalar) -> bool {
        let closed = (self.start - self.end).squared_length() < EPSILON.into();
        !closed && self.are_points_colinear(tolerance)
    }
''')),
 (Q, fn('pub(crate) fn real_roots(', '''    pub(crate) fn real_roots(
        &self,
        a: P::Scalar,
        b: P::Scalar,
        c: P::Scalar,
    ) -> ArrayVec<[P::Scalar; 2]> {
        let mut result = ArrayVec::new();
        let tiny = |x: P::Scalar| x.abs() < EPSILON.into();
        match (tiny(a), tiny(b)) {
            (true, true) => {}
            (true, false) => result.push(-c / b),
            (false, _) => {
                let delta = b * b - a * c * 4.0;
                if delta > 0.0.into() {
                    let s = delta.sqrt();
                    let q = (if b < 0.0.into() { s - b } else { -(b + s) }) / 2.0;
                    result.push(q / a);
                    result.push(c / q);
                } else if tiny(delta) {
                    result.push(-b / (a * 2.0));
                }
            }
        }
        result
    }
''')),
 (L, fn('pub fn distance_to_point(', '''    pub fn distance_to_point(&self, p: P) -> P::Scalar {
        let along = self.end - self.start;
        let l2 = along.squared_length();
        if l2 < P::Scalar::from(EPSILON) {
            return (self.start - p).squared_length().sqrt();
        }
        let v = p - self.start;
        let dot = (0..P::DIM).fold(P::Scalar::from(0.0), |s, i| s + v.axis(i) * along.axis(i));
        let raw = dot / l2;
        let one = P::Scalar::from(1.0);
        let zero = P::Scalar::from(0.0);
        let t = if raw > one {
            one
        } else if raw < zero {
            zero
        } else {
            raw
        };
        (p - self.eval(t)).squared_length().sqrt()
    }
''')),
 (L, fn('pub fn split(', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        let at = self.eval(t);
        (LineSegment::new(self.start, at), LineSegment::new(at, self.end))
    }
''')),
 (L, fn('pub fn bounding_box(', '''    pub fn bounding_box(&self) -> [(P::Scalar, P::Scalar); P::DIM] {
        let mut bounds = [(P::Scalar::default(), P::Scalar::default()); P::DIM];
        for i in 0..P::DIM {
            let (a, b) = (self.start.axis(i), self.end.axis(i));
            bounds[i] = if a < b { (a, b) } else { (b, a) };
        }
        bounds
    }
''')),
 (B, fn('pub fn eval(&self, t: P::Scalar) -> P {\n        //let', '''    pub fn eval(&self, t: P::Scalar) -> P {
        let mut p = self.control_points;
        let u = -t + 1.0;
        let mut left = N;
        while left > 1 {
            left -= 1;
            for j in 0..left {
                p[j] = p[j] * u + p[j + 1] * t;
            }
        }
        p[0]
    }
''')),
 (B, fn('pub fn split(', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        let mut left = self.control_points;
        let mut work = self.control_points;
        let u = -t + 1.0;
        for i in 0..N {
            left[i] = work[0];
            for j in 0..N - 1 - i {
                work[j] = work[j] * u + work[j + 1] * t;
            }
        }
        (Bezier::new(left), Bezier::new(work))
    }
''')),
 (B, fn('pub fn derivative(', '''    pub fn derivative(&self) -> Bezier<P, { N - 1 }> {
        let mut new_points: [P; N - 1] = [P::default(); N - 1];
        let factor = (N - 1) as NativeFloat;
        for (slot, pair) in new_points.iter_mut().zip(self.control_points.windows(2)) {
            *slot = (pair[1] - pair[0]) * factor;
        }
        Bezier::new(new_points)
    }
''')),
 (S, fn('pub fn eval(', '''    pub fn eval(&self, t: P::Scalar) -> Result<P, BSplineError>
    where
        [(); D + 1]: Sized,
    {
        let (first, last) = self.knot_domain();
        if !(t >= first && t <= last) {
            Err(BSplineError::KnotDomainViolation)
        } else {
            self.de_boor_iterative(t)
        }
    }
''')),
 (S, fn('pub fn knot_domain(', '''    pub fn knot_domain(&self) -> (P::Scalar, P::Scalar) {
        (self.knots[D], self.knots[C])
    }
''')),
 (S, fn('fn knot_span_start_for_t(', '''    fn knot_span_start_for_t(&self, t: P::Scalar) -> Option<usize> {
        let n = C - 1;
        if t == self.knots[C] {
            let mut i = n;
            while i > D && !(self.knots[i] < t) {
                i -= 1;
            }
            return Some(if self.knots[i] < t { i } else { n });
        }
        (D..=n).find(|&i| self.knots[i] <= t && t < self.knots[i + 1])
    }
''')),
 (S, fn('fn de_boor_iterative(', '''    fn de_boor_iterative(&self, t: P::Scalar) -> Result<P, BSplineError>
    where
        [(); D + 1]: Sized,
    {
        let k = self.knot_span_start_for_t(t).ok_or(BSplineError::KnotDomainViolation)?;
        let mut d: [P; D + 1] = [P::default(); D + 1];
        d.copy_from_slice(&self.control_points[k - D..=k]);
        for r in 1..=D {
            let mut j = D;
            while j >= r {
                let left = self.knots[j + k - D];
                let right = self.knots[j + 1 + k - r];
                let num = t - left;
                let den = right - left;
                let alpha: P::Scalar = if num <= 0.0.into() {
                    0.0.into()
                } else if den <= 0.0.into() {
                    1.0.into()
                } else {
                    num / den
                };
                if alpha.is_nan() {
                    return Err(BSplineError::EvaluationAlphaIsNaN);
                }
                let beta = 1.0 - alpha.into();
                d[j] = d[j - 1] * beta + d[j] * alpha;
                j -= 1;
            }
        }
        Ok(d[D])
    }
''')),
 (S, fn('pub fn arclen(', '''    pub fn arclen(&self, nsteps: usize) -> P::Scalar
    where
        [(); D + 1]: Sized,
    {
        let mut total: P::Scalar = 0.0.into();
        let (kmin, kmax) = self.knot_domain();
        let at = |step: usize| -> P {
            let share = P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat);
            self.eval((kmin + share * (kmax - kmin)).min(kmax)).unwrap_or_default()
        };
        let mut prev = if nsteps > 0 { at(0) } else { P::default() };
        for step in 1..=nsteps {
            let next = at(step);
            total = total + (prev - next).squared_length().sqrt();
            prev = next;
        }
        total
    }
''')),
 (S, fn('pub fn derivative(', '''    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
        let mut new_points: [P; C - 1] = [P::default(); C - 1];
        for (i, pair) in self.control_points.windows(2).enumerate() {
            let width: NativeFloat = (self.knots[i + D + 1] - self.knots[i + 1]).into();
            if width > 0.0 {
                new_points[i] = (pair[1] - pair[0]) * (D as NativeFloat / width);
            }
        }
        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];
        for (slot, knot) in new_knots.iter_mut().zip(self.knots.iter().skip(1)) {
            *slot = *knot;
        }
        BSpline { knots: new_knots, knot_kind: self.knot_kind, control_points: new_points }
    }
''')),
 (P, fn('fn eq(', '''    fn eq(&self, other: &Self) -> bool {
        self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)
    }
''')),
 (P, fn('fn squared_length(', '''    fn squared_length(&self) -> Self::Scalar {
        self.0.iter().fold(0.0, |sum, &x| sum + <T as Into<NativeFloat>>::into(x * x))
    }
''')),
 (P, fn('fn add(self, other', '''    fn add(self, other: PointN<T, N>) -> PointN<T, N> {
        PointN(core::array::from_fn(|i| self.0[i] + other.0[i]))
    }
''')),
 (P, fn('fn mul(', '''    fn mul(self, _rhs: U) -> PointN<T, N> {
        PointN(self.0.map(|x| x * _rhs))
    }
''')),
 (E, fn('pub fn start(', '''    pub fn start(&self) -> P {
        self.baseline().start
    }
''')),
 (E, fn('pub fn end(', '''    pub fn end(&self) -> P {
        self.baseline().end
    }
''')),
]
ROUND = [
 (C, fn('pub fn eval(', '''    pub fn eval(&self, t: P::Scalar) -> P {
        let u = -t + 1.0;
        let (u2, t2) = (u * u, t * t);
        self.start * (u2 * u) + self.ctrl1 * (u2 * t * 3.0) + self.ctrl2 * (u * t2 * 3.0) + self.end * (t2 * t)
    }
''')),
 (C, fn('pub fn eval_casteljau(', '''    pub fn eval_casteljau(&self, t: P::Scalar) -> P {
        self.split(t).0.end
    }
''')),
 (C, fn('pub fn axis(', '''    pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        let u = -t + 1.0;
        let lerp = |a: P::Scalar, b: P::Scalar| a * u + b * t;
        let [a, b, c, d] = self.control_points().map(|p| p.axis(axis));
        let (ab, bc, cd) = (lerp(a, b), lerp(b, c), lerp(c, d));
        lerp(lerp(ab, bc), lerp(bc, cd))
    }
''')),
 (C, fn('pub fn dd(', '''    pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        self.derivative().axis(t, axis)
    }
''')),
 (C, fn('pub fn arclen(', ARC2 % ('eval_casteljau', 'eval_casteljau'))), (Q, fn('pub fn arclen(', ARC2 % ('eval_casteljau', 'eval_casteljau'))),
 (B, fn('pub fn arclen(', ARC2 % ('eval', 'eval'))),
 (Q, fn('pub fn eval(', '''    pub fn eval(&self, t: P::Scalar) -> P {
        let u = -t + 1.0;
        self.start * (u * u) + self.ctrl * (u * t * 2.0) + self.end * (t * t)
    }
''')),
 (Q, fn('pub fn eval_casteljau(', '''    pub fn eval_casteljau(&self, t: P::Scalar) -> P {
        let u = -t + 1.0;
        let ab = self.start * u + self.ctrl * t;
        let bc = self.ctrl * u + self.end * t;
        ab * u + bc * t
    }
''')),
 (Q, fn('pub fn split(', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        let u = -t + 1.0;
        let ab = self.start * u + self.ctrl * t;
        let bc = self.ctrl * u + self.end * t;
        let at = ab * u + bc * t;
        (QuadraticBezier::new(self.start, ab, at), QuadraticBezier::new(at, bc, self.end))
    }
''')),
 (Q, fn('pub fn axis(', '''    pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        self.eval(t).axis(axis)
    }
''')),
 (Q, fn('pub fn dd(', '''    pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        self.derivative().axis(t, axis)
    }
''')),
 (L, fn('pub fn axis(', '''    pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar {
        self.eval(t).axis(axis)
    }
''')),
 (L, fn('pub fn distance_to_point(', '''    pub fn distance_to_point(&self, p: P) -> P::Scalar {
        let along = self.end - self.start;
        let l2 = along.squared_length();
        if l2 < P::Scalar::from(EPSILON) {
            return (p - self.start).squared_length().sqrt();
        }
        let v = p - self.start;
        let mut dot = P::Scalar::from(0.0);
        for i in (0..P::DIM).rev() {
            dot = dot + along.axis(i) * v.axis(i);
        }
        let t = (dot / l2).max(P::Scalar::from(0.0)).min(P::Scalar::from(1.0));
        (v - along * t).squared_length().sqrt()
    }
''')),
 (B, fn('pub fn eval(&self, t: P::Scalar) -> P {\n        //let', '''    pub fn eval(&self, t: P::Scalar) -> P {
        let mut p: [P; N] = self.control_points;
        for i in (1..N).rev() {
            for j in 0..i {
                p[j] = p[j] + (p[j + 1] - p[j]) * t;
            }
        }
        p[0]
    }
''')),
 (B, fn('pub fn split(', '''    pub fn split(&self, t: P::Scalar) -> (Self, Self) {
        let mut left = self.control_points;
        let mut work = self.control_points;
        for i in 0..N {
            left[i] = work[0];
            for j in 0..N - 1 - i {
                work[j] = work[j] + (work[j + 1] - work[j]) * t;
            }
        }
        (Bezier::new(left), Bezier::new(work))
    }
''')),
 (S, ('text', 'd[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;', '''let beta: P::Scalar = if numerator > 0.0.into() && denominator > 0.0.into() {
                    (self.knots[j + 1 + k - r] - t) / denominator
                } else {
                    -alpha + 1.0
                };
                d[j] = d[j - 1] * beta + d[j] * alpha;''')),
 (S, ('text', '* ((D) as NativeFloat / width);', '* (1.0 / width) * (D as NativeFloat);')),
 (S, ('text', '''(P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                    * (kmax - kmin);''', '''(kmax - kmin) * P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat);''')),
 (P, fn('fn squared_length(', '''    fn squared_length(&self) -> Self::Scalar {
        let mut sum = 0.0;
        for x in self.0.iter().rev() {
            let x: NativeFloat = (*x).into();
            sum += x * x;
        }
        sum
    }
''')),
 (C, fn('pub fn derivative(', '''    pub fn derivative(&self) -> QuadraticBezier<P> {
        QuadraticBezier {
            start: self.ctrl1 * 3.0 - self.start * 3.0,
            ctrl: self.ctrl2 * 3.0 - self.ctrl1 * 3.0,
            end: self.end * 3.0 - self.ctrl2 * 3.0,
        }
    }
''')),
]
HINT = [
 (S, ('text', '''        let mut low = p;
        let mut high = n;''', '''        static HINT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let h = HINT.load(core::sync::atomic::Ordering::Relaxed);
        if h >= p && h <= n && t >= self.knots[h] && t < self.knots[h + 1] {
            return Some(h);
        }
        let mut low = p;
        let mut high = n;''')),
 (S, ('text', '''                return Some(mid);
''', '''                HINT.store(mid, core::sync::atomic::Ordering::Relaxed);
                return Some(mid);
''')),
 (C, ('text', '''        let nsteps: usize = 64;
''', '''        static CALLS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let nsteps: usize = 64;
''')),
]
GROUPS = {'hint': HINT, 'same': SAME, 'rounding': ROUND}

def apply(root, edits):
    for f, e in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        if e[0] == 'text':
            assert s.count(e[1]) == 1, (f, e[1])
            s = s.replace(e[1], e[2])
        else:
            i = s.index(e[1])
            i = s.rindex('\n', 0, i) + 1
            j = s.index('{\n', i)
            ind = re.match(r' *', s[i:]).group(0)
            j = s.index('\n' + ind + '}\n', i) + len(ind) + 3
            s = s[:i] + e[2] + s[j:]
        open(p, 'w').write(s)

def sh(cmd, cwd, t=1500):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace', start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def main():
    a = sys.argv[1:]
    j = 3
    if a[:1] == ['-j']:
        j = int(a[1]); a = a[2:]
    names = [x for x in a if x in GROUPS] or list(GROUPS)
    props = [x for x in a if x not in GROUPS] or ['C%02d' % i for i in range(1, 30)]
    for g in names:
        tmp = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
        try:
            sh(f'cp -a /repo {tmp}/repo && git -C {tmp}/repo checkout -q -- . && rm -rf {tmp}/repo/target', '/')
            apply(tmp + '/repo', GROUPS[g])
            rc, o = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=' + tmp + '/t; cargo test --offline --lib 2>&1 | tail -60', tmp + '/repo')
            print(g, [l for l in o.split('\n') if 'test result' in l or l.startswith('error') or 'FAILED' in l], flush=True)
            if 'test result: ok' not in o:
                print(o); continue
            q = queue.Queue()
            for p in props: q.put(p)
            def work():
                w = plant.scratch()
                try:
                    apply(w + '/repo', GROUPS[g])
                    while True:
                        try: p = q.get_nowait()
                        except queue.Empty: return
                        rc, o = sh(f'VERIF_ROOT={w}/verif ./check.sh {p} quick', w + '/verif')
                        print(g, p, 'quiet' if rc == 0 else f'ALARM rc={rc} {o.strip()[-700:]}', flush=True)
                finally:
                    shutil.rmtree(w, ignore_errors=True)
            th = [threading.Thread(target=work) for _ in range(j)]
            [x.start() for x in th]; [x.join() for x in th]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
