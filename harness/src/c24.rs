//! C24: the operations on a Bézier curve agree with each other, on the curve and on pieces of it.
//! No model: every law relates results of the real code to each other.
use crate::core::*;
use crate::need;
use crate::shapes::*;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

pub trait Calc<const DIM: usize>: Curve<DIM> {
    /// the derivative object, evaluated
    fn slopes(&self, ts: &[R]) -> Vec<[R; DIM]>;
    /// control points of the derivative
    fn hodograph(&self) -> Vec<[R; DIM]>;
    fn bounds(&self) -> Option<Vec<(R, R)>> {
        None
    }
    /// bounding box of the derivative
    fn slope_bounds(&self) -> Option<Vec<(R, R)>> {
        None
    }
    /// per-axis derivative sample
    fn sample(&self, _t: R, _axis: usize) -> Option<R> {
        None
    }
    /// distance is found by search
    const SEARCH: bool = true;
}
macro_rules! calc {
    ($($d:literal)*) => { $(
        impl Calc<$d> for LineSegment<Pt<$d>> {
            fn slopes(&self, ts: &[R]) -> Vec<[R; $d]> { ts.iter().map(|_| arr(self.derivative())).collect() }
            fn hodograph(&self) -> Vec<[R; $d]> { vec![arr(self.derivative())] }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
            const SEARCH: bool = false;
        }
        impl Calc<$d> for QuadraticBezier<Pt<$d>> {
            fn slopes(&self, ts: &[R]) -> Vec<[R; $d]> { let q = self.derivative(); ts.iter().map(|t| Curve::eval(&q, *t)).collect() }
            fn hodograph(&self) -> Vec<[R; $d]> { Curve::ctrl(&self.derivative()) }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
            fn slope_bounds(&self) -> Option<Vec<(R, R)>> { Some(self.derivative().bounding_box().to_vec()) }
            fn sample(&self, t: R, axis: usize) -> Option<R> { Some(self.dd(t, axis)) }
        }
        impl Calc<$d> for CubicBezier<Pt<$d>> {
            fn slopes(&self, ts: &[R]) -> Vec<[R; $d]> { let q = self.derivative(); ts.iter().map(|t| Curve::eval(&q, *t)).collect() }
            fn hodograph(&self) -> Vec<[R; $d]> { Curve::ctrl(&self.derivative()) }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
            fn slope_bounds(&self) -> Option<Vec<(R, R)>> { Some(self.derivative().bounding_box().to_vec()) }
            fn sample(&self, t: R, axis: usize) -> Option<R> { Some(self.dd(t, axis)) }
        }
        calc!(@g $d 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 32 33);
    )* };
    (@g $d:literal $($n:literal)*) => { $(
        impl Calc<$d> for Bezier<Pt<$d>, $n> {
            fn slopes(&self, ts: &[R]) -> Vec<[R; $d]> {
                let q: Bezier<Pt<$d>, { $n - 1 }> = self.derivative();
                ts.iter().map(|t| Curve::eval(&q, *t)).collect()
            }
            fn hodograph(&self) -> Vec<[R; $d]> { let q: Bezier<Pt<$d>, { $n - 1 }> = self.derivative(); Curve::ctrl(&q) }
        }
    )* };
}
calc!(1 2 3 4 5 6 7 8 9 10);

/// Gauss-Legendre on [0, 1], exact up to degree 11.
const NODES: [f64; 6] = [
    0.033765242898423989, 0.169395306766867743, 0.380690406958401546, 0.619309593041598454, 0.830604693233132257, 0.966234757101576011,
];
const WEIGHTS: [f64; 6] = [
    0.085662246189585173, 0.180380786524069304, 0.233956967286345524, 0.233956967286345524, 0.180380786524069304, 0.085662246189585173,
];

fn norm(v: impl Iterator<Item = f64>) -> f64 {
    v.map(|x| x * x).sum::<f64>().sqrt()
}
fn apart<const DIM: usize>(a: [R; DIM], b: [R; DIM]) -> f64 {
    norm((0..DIM).map(|d| a[d] as f64 - b[d] as f64))
}
/// Coordinates of size s can be squared and added without leaving the range of the scalar.
fn squares(s: f64) -> bool {
    s == 0.0 || s * s < R::MAX as f64 * 1e-6 && s * s > R::MIN_POSITIVE as f64 * 1e12
}

const TS: [f64; 9] = [0.5, 0.25, 0.3, 0.9, 1.0 / 64.0, 0.999, 0.0, 1.0, 0.62];
const US: [f64; 5] = [0.0, 0.2, 0.5, 0.77, 1.0];
const CUTS: [(usize, usize); 8] = [(1, 2), (1, 3), (2, 3), (3, 8), (7, 10), (1, 33), (50, 100), (9, 10)];

fn laws<const DIM: usize, C: Calc<DIM>>(x: &C, depth: usize, path: &mut Vec<String>, ctx: &mut Ctx) -> Res {
    let n = C::N as f64;
    let c = x.ctrl();
    let s0 = scale_of(&c);
    if s0 * (2.0 * n) > R::MAX as f64 * 1e-3 {
        ctx.class("out of the scalar's range");
        return Ok(());
    }
    ctx.state();
    let who = |p: &[String]| format!("{} {c:?}{}{}", C::kind(), if p.is_empty() { "" } else { " = " }, p.join(" of "));
    let tol = 4.0 * REL * s0;
    // values and slopes of the whole
    let hodo = x.hodograph();
    let speed = hodo.iter().map(|p| norm(p.iter().map(|x| *x as f64))).fold(0.0, f64::max);
    let stol = 2.0 * n * tol;
    let mut halves = vec![];
    for t in TS {
        let t = t as R;
        let (l, r) = x.split(t);
        ctx.trans(1);
        // pieces follow the whole, and so do their derivatives
        let ul: Vec<R> = US.iter().map(|u| t * *u as R).collect();
        let ur: Vec<R> = US.iter().map(|u| t + (1.0 - t) * *u as R).collect();
        let us: Vec<R> = US.iter().map(|u| *u as R).collect();
        let (whole_l, whole_r, dl, dr) = (x.slopes(&ul), x.slopes(&ur), l.slopes(&us), r.slopes(&us));
        for k in 0..US.len() {
            let (pl, pr) = (l.eval(us[k]), r.eval(us[k]));
            let (wl, wr) = (x.eval(ul[k]), x.eval(ur[k]));
            need!(same(pl, wl, tol), "{}: left of split({t:?}) at {:?} is {pl:?}, the whole at {:?} is {wl:?}", who(path), us[k], ul[k]);
            need!(same(pr, wr, tol), "{}: right of split({t:?}) at {:?} is {pr:?}, the whole at {:?} is {wr:?}", who(path), us[k], ur[k]);
            for d in 0..DIM {
                let (a, b) = (dl[k][d] as f64, whole_l[k][d] as f64 * t as f64);
                need!((a - b).abs() <= stol, "{}: derivative of the left of split({t:?}) at {:?} axis {d} is {a:?}, {t:?} times that of the whole is {b:?}", who(path), us[k]);
                let (a, b) = (dr[k][d] as f64, whole_r[k][d] as f64 * (1.0 - t as f64));
                need!((a - b).abs() <= stol, "{}: derivative of the right of split({t:?}) at {:?} axis {d} is {a:?}, {:?} times that of the whole is {b:?}", who(path), us[k], 1.0 - t);
                if let Some(g) = x.sample(ul[k], d) {
                    need!((g as f64 - whole_l[k][d] as f64).abs() <= stol, "{}: derivative sample at {:?} axis {d} is {g:?}, the derivative curve has {:?}", who(path), ul[k], whole_l[k][d]);
                }
            }
            ctx.trans(8);
            ctx.outcome((pl[0] as f64).to_bits());
        }
        // a piece of a piece is a piece of the whole
        for s in [0.5, 0.3] {
            let s = s as R;
            let (ll, lr) = l.split(s);
            let (m, rest) = x.split(s * t);
            pts(&who(path), &format!("left of split({s:?}) of left of split({t:?})"), &ll.ctrl(), &m.ctrl(), 2.0 * tol)?;
            if t < 0.99 {
                let q = (t - s * t) / (1.0 - s * t);
                pts(&who(path), &format!("middle piece from {:?} to {t:?}", s * t), &lr.ctrl(), &rest.split(q).0.ctrl(), 2.0 * tol)?;
            }
            let rr = r.split(s).1;
            let m = x.split(t + (1.0 - t) * s).1;
            pts(&who(path), &format!("right of split({s:?}) of right of split({t:?})"), &rr.ctrl(), &m.ctrl(), 2.0 * tol)?;
            ctx.trans(6);
        }
        halves.push((t, l, r));
    }
    // lengths add up
    for (k, m) in CUTS {
        if let Some(whole) = x.arclen(m) {
            let t = (k as f64 / m as f64) as R;
            let (l, r) = x.split(t);
            let (a, b) = (l.arclen(k).unwrap() as f64, r.arclen(m - k).unwrap() as f64);
            ctx.trans(3);
            if squares(s0) {
                need!(
                    (whole as f64 - a - b).abs() <= (m as f64 + 1.0) * 2.0 * tol,
                    "{}: arclen({m}) is {whole:?}, the parts up to and from {k}/{m} measure {a:?} and {b:?}", who(path)
                );
                let chord = apart(c[0], c[C::N - 1]);
                need!(whole as f64 >= chord - (m as f64 + 1.0) * tol, "{}: arclen({m}) is {whole:?}, the ends are {chord:?} apart", who(path));
                need!(whole as f64 <= speed + (m as f64 + 1.0) * tol + stol, "{}: arclen({m}) is {whole:?}, but the speed is nowhere above {speed:?}", who(path));
                ctx.class("lengths added");
                ctx.outcome((whole as f64).to_bits());
            }
        }
    }
    // differences are integrals of the derivative
    if C::N <= 12 {
        for (a, b) in [(0.0, 1.0), (0.25, 0.8), (0.7, 1.0)] {
            let ts: Vec<R> = NODES.iter().map(|x| (a + (b - a) * x) as R).collect();
            let g = x.slopes(&ts);
            let (p, q) = (x.eval(a as R), x.eval(b as R));
            ctx.trans(2 + ts.len() as u64);
            for d in 0..DIM {
                let i: f64 = (b - a) * g.iter().zip(WEIGHTS).map(|(g, w)| g[d] as f64 * w).sum::<f64>();
                let e = q[d] as f64 - p[d] as f64;
                need!((i - e).abs() <= stol, "{}: from {a:?} to {b:?} axis {d} changes by {e:?}, the derivative integrates to {i:?}", who(path));
            }
            ctx.class("integrated");
        }
    }
    let btol = tol + 64.0 * EPS;
    if let Some(bb) = x.bounds() {
        // the box is that of the halves together
        for (t, l, r) in &halves {
            let (bl, br) = (l.bounds().unwrap(), r.bounds().unwrap());
            ctx.trans(2);
            for d in 0..DIM {
                let lo = (bl[d].0 as f64).min(br[d].0 as f64);
                let hi = (bl[d].1 as f64).max(br[d].1 as f64);
                need!(
                    (bb[d].0 as f64 - lo).abs() <= 2.0 * btol && (bb[d].1 as f64 - hi).abs() <= 2.0 * btol,
                    "{}: box on axis {d} is {:?}, those of the halves at {t:?} are {:?} and {:?}", who(path), bb[d], bl[d], br[d]
                );
            }
            ctx.class("boxes joined");
        }
        if let Some(sb) = x.slope_bounds() {
            // no chord is steeper than the derivative's box
            for (a, b) in [(0.0, 1.0), (0.0, 0.3), (0.25, 0.8), (0.5, 0.75), (0.9, 1.0)] {
                let (p, q) = (x.eval(a as R), x.eval(b as R));
                ctx.trans(2);
                for d in 0..DIM {
                    let m = q[d] as f64 - p[d] as f64;
                    let (lo, hi) = (sb[d].0 as f64 * (b - a), sb[d].1 as f64 * (b - a));
                    let e = stol + 64.0 * EPS;
                    need!(m >= lo - e && m <= hi + e, "{}: from {a:?} to {b:?} axis {d} changes by {m:?}, the derivative's box allows {lo:?} to {hi:?}", who(path));
                }
            }
            ctx.class("mean value");
        }
    }
    // distances
    if squares(s0) {
        let mut qs: Vec<[R; DIM]> = vec![[0.0; DIM], x.eval(0.37), x.eval(0.0), x.eval(1.0), c[C::N / 2]];
        let mut q = [0.0 as R; DIM];
        let mut q2 = x.eval(0.81);
        let mut far = [0.0 as R; DIM];
        for d in 0..DIM {
            q[d] = (s0 * [0.31, -0.77, 1.9, 0.05][d % 4]) as R;
            q2[d] += (s0 * [0.013, -0.021, 0.005][d % 3]) as R;
            far[d] = (s0 * [-40.0, 25.0, 3.0][d % 3]) as R;
        }
        qs.extend([q, q2, far]);
        // search: the true distance, at most half a coarse step of travel more
        let seg = apart(c[0], c[C::N - 1]);
        // short segments may be treated as points
        let short = if seg < 1000.0 * EPS.sqrt() { 4.0 * EPS.sqrt() } else { 0.0 };
        let slack = |speed: f64| if C::SEARCH { speed / 128.0 } else { short };
        let ds: Vec<f64> = qs.iter().map(|q| x.dist(*q) as f64).collect();
        let bb = x.bounds();
        for (q, &dq) in qs.iter().zip(&ds) {
            let dtol = |d: f64| {
                // the square of a distance is accurate to this
                let e2 = 16.0 * REL * (s0.max(scale_of(&[*q]))).powi(2) * DIM as f64;
                if d > 0.0 { (e2 / d).min(e2.sqrt()) } else { e2.sqrt() }
            };
            ctx.trans(1);
            ctx.outcome(dq.to_bits());
            for u in [0.0, 0.11, 0.37, 0.5, 0.81, 0.93, 1.0] {
                let e = apart(x.eval(u as R), *q);
                ctx.trans(1);
                need!(dq <= e + slack(speed) + dtol(e), "{}: distance of {q:?} is {dq:?}, but the curve point at {u:?} is {e:?} away", who(path));
            }
            for (t, l, r) in halves.iter().take(if depth == 0 { 3 } else { 2 }) {
                let (a, b) = (l.dist(*q) as f64, r.dist(*q) as f64);
                ctx.trans(2);
                let m = a.min(b);
                let e = dtol(m.min(dq));
                need!(
                    dq <= m + slack(speed) + e && m <= dq + slack(speed * (*t as f64).max(1.0 - *t as f64)) + e,
                    "{}: distance of {q:?} is {dq:?}, the halves at {t:?} are {a:?} and {b:?} away", who(path)
                );
            }
            if let Some(bb) = &bb {
                let out = norm((0..DIM).map(|d| (bb[d].0 as f64 - q[d] as f64).max(q[d] as f64 - bb[d].1 as f64).max(0.0)));
                need!(dq >= out - dtol(out) - btol * DIM as f64 - short, "{}: distance of {q:?} is {dq:?}, but the bounding box {bb:?} is {out:?} away", who(path));
            }
            for (p, &dp) in qs.iter().zip(&ds) {
                let between = apart(*p, *q);
                let e = dtol(dq) + 16.0 * (REL.sqrt()) * 1e-3 * s0;
                need!(dq <= dp + between + slack(speed) + e + dtol(dp), "{}: {q:?} is {dq:?} away and {p:?} is {dp:?}, but they are only {between:?} apart", who(path));
            }
            ctx.class("distances");
        }
    }
    ctx.trace();
    if depth > 0 {
        for (t, l, r) in halves.into_iter().take(3) {
            path.insert(0, format!("left of split({t:?})"));
            laws::<DIM, C>(&l, depth - 1, path, ctx)?;
            path[0] = format!("right of split({t:?})");
            laws::<DIM, C>(&r, depth - 1, path, ctx)?;
            path.remove(0);
        }
    }
    Ok(())
}
fn pts<const DIM: usize>(who: &str, what: &str, a: &[[R; DIM]], b: &[[R; DIM]], tol: f64) -> Res {
    need!(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y, tol)), "{who}: {what} is {a:?}, cut from the whole it is {b:?}");
    Ok(())
}

fn sp<const DIM: usize, C: Calc<DIM> + 'static>(name: &str, sp: Space, depth: usize) -> Suite {
    let n = C::N;
    suite(
        format!("{name}-N{n}-{DIM}d-{}", sp.tag()),
        format!("{}, and all pieces from up to {depth} splits", sp.what(n, DIM)),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            let x = C::build(&c);
            laws::<DIM, C>(&x, depth, &mut vec![], ctx)?;
            ctx.sample(|| format!("{} {c:?}", C::kind()));
            Ok(())
        },
    )
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    type L<const D: usize> = LineSegment<Pt<D>>;
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let full = |s, q, t| Space::new(a(s, q, t), true);
    let cols = |s, q, t| Space::new(a(s, q, t), false);
    let deep = tier.pick(1, 2, 2);
    let mut v = vec![
        sp::<1, L<1>>("line", full(4, 12, 18), deep).must(&["boxes joined", "distances"]),
        sp::<2, L<2>>("line", full(2, 4, 6), deep),
        sp::<1, Q<1>>("quadratic", full(3, 9, 16), deep).must(&["lengths added", "integrated", "boxes joined", "mean value", "distances"]),
        sp::<2, Q<2>>("quadratic", full(2, 3, 4), 1),
        sp::<3, Q<3>>("quadratic", cols(2, 8, 14), 1),
        sp::<1, C<1>>("cubic", full(2, 5, 9), deep).must(&["lengths added", "integrated", "boxes joined", "mean value", "distances"]),
        sp::<2, C<2>>("cubic", full(2, 2, 3), 1),
        sp::<3, C<3>>("cubic", cols(2, 6, 10), 1),
        sp::<1, Bezier<Pt<1>, 2>>("generic", full(3, 8, 14), 1),
        sp::<2, Bezier<Pt<2>, 3>>("generic", cols(2, 7, 12), 1),
        sp::<2, Bezier<Pt<2>, 4>>("generic", cols(2, 4, 7), 1),
        sp::<3, Bezier<Pt<3>, 5>>("generic", cols(2, 3, 4), 1).must(&["lengths added", "integrated", "distances"]),
        sp::<2, Bezier<Pt<2>, 6>>("generic", cols(2, 2, 3), 1),
        sp::<2, L<2>>("line", Space::scaled(a(2, 4, 6), false), 1),
        sp::<2, Q<2>>("quadratic", Space::scaled(a(2, 4, 6), false), 1),
        sp::<2, C<2>>("cubic", Space::scaled(a(2, 3, 5), false), 1),
        sp::<2, Bezier<Pt<2>, 4>>("generic", Space::scaled(a(2, 3, 4), false), 1),
    ];
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sp::<$d, L<$d>>("line", Space::points(npoints(tier, 3)), 1));
            v.push(sp::<$d, Q<$d>>("quadratic", Space::points(npoints(tier, 3)), 1));
            v.push(sp::<$d, C<$d>>("cubic", Space::points(npoints(tier, 4)), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 2>>("generic", Space::points(npoints(tier, 3)), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 3>>("generic", Space::points(npoints(tier, 4)), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 5>>("generic", Space::points(npoints(tier, 6)), 1));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(sp::<3, Bezier<Pt<3>, $n>>("generic-long", Space::patterns(), 1)); )* };
    }
    longs!(6 7 8 9 10 11 12 13 16 17 24 32 33);
    v
}
