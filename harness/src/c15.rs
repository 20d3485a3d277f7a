//! C15: affine invariance, reversal, control box — related runs of the real code.
use crate::bsp::*;
use crate::core::*;
use crate::need;
use crate::shapes::*;
use std::sync::Arc;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

/// x -> s * P x + v with P a signed permutation.
#[derive(Clone, Debug)]
pub struct Map<const DIM: usize> {
    perm: [usize; DIM],
    sign: [f64; DIM],
    s: f64,
    v: [f64; DIM],
}
impl<const DIM: usize> Map<DIM> {
    fn lin(&self, x: [R; DIM]) -> [f64; DIM] {
        let mut o = [0.0; DIM];
        for d in 0..DIM {
            o[d] = self.s * self.sign[d] * x[self.perm[d]] as f64;
        }
        o
    }
    fn at(&self, x: [R; DIM]) -> [R; DIM] {
        let l = self.lin(x);
        let mut o = [0.0 as R; DIM];
        for d in 0..DIM {
            o[d] = (l[d] + self.v[d]) as R;
        }
        o
    }
    fn linr(&self, x: [R; DIM]) -> [R; DIM] {
        let l = self.lin(x);
        let mut o = [0.0 as R; DIM];
        for d in 0..DIM {
            o[d] = l[d] as R;
        }
        o
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// All signed permutations with s = 1, v = 0, and scalings/translations with the identity and one mirror.
pub fn maps<const DIM: usize>() -> Vec<Map<DIM>> {
    let mut out = vec![];
    let ps = if DIM <= 3 { perms(DIM) } else { vec![(0..DIM).collect(), (0..DIM).rev().collect(), (0..DIM).map(|i| (i + 1) % DIM).collect()] };
    for p in &ps {
        let masks: Vec<usize> = if DIM <= 3 { (0..1 << DIM).collect() } else { vec![0, 1, (1 << DIM) - 1, 1 << (DIM - 1)] };
        for m in masks {
            let mut perm = [0; DIM];
            perm.copy_from_slice(p);
            let mut sign = [1.0; DIM];
            for d in 0..DIM {
                if m >> d & 1 == 1 {
                    sign[d] = -1.0;
                }
            }
            out.push(Map { perm, sign, s: 1.0, v: [0.0; DIM] });
        }
    }
    let mut id = [0; DIM];
    for d in 0..DIM {
        id[d] = d;
    }
    for s in [1.0, 2.0, 0.5, 3.0, 0.3, 1e-3, 1e4] {
        for t in [0.0, 1.0, -17.25, 1000.1] {
            for f in [1.0, -1.0] {
                let mut v = [0.0; DIM];
                for d in 0..DIM {
                    v[d] = t * (1.0 + 0.5 * d as f64) * if d % 2 == 1 { -1.0 } else { 1.0 };
                }
                let mut sign = [1.0; DIM];
                sign[0] = f;
                out.push(Map { perm: id, sign, s, v });
            }
        }
    }
    // extreme scalings, alone and with a translation of the same size
    for (k, s) in SCALES.iter().enumerate() {
        for t in [0.0, -17.25] {
            let mut v = [0.0; DIM];
            for d in 0..DIM {
                v[d] = t * s * (1.0 + 0.5 * d as f64);
            }
            let mut sign = [1.0; DIM];
            sign[0] = if k % 2 == 1 { -1.0 } else { 1.0 };
            out.push(Map { perm: id, sign, s: *s, v });
        }
    }
    out
}
/// Maps that bring a given point exactly to the origin.
fn to_origin<const DIM: usize>(q: [R; DIM], to: &mut Vec<Map<DIM>>) {
    for s in [1.0, 0.5, 1e-9, 1e4] {
        let mut m = Map { perm: [0; DIM], sign: [1.0; DIM], s, v: [0.0; DIM] };
        for d in 0..DIM {
            m.perm[d] = DIM - 1 - d;
        }
        let l = m.lin(q);
        for d in 0..DIM {
            m.v[d] = -l[d];
        }
        to.push(m);
    }
}

pub trait Ops<const DIM: usize>: Curve<DIM> {
    fn dctrl(&self) -> Vec<[R; DIM]>;
    fn bounds(&self) -> Option<Vec<(R, R)>> {
        None
    }
    /// distance is found by search
    const SEARCH: bool = true;
}
macro_rules! ops {
    ($($d:literal)*) => { $(
        impl Ops<$d> for LineSegment<Pt<$d>> {
            fn dctrl(&self) -> Vec<[R; $d]> { vec![arr(self.derivative())] }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
            const SEARCH: bool = false;
        }
        impl Ops<$d> for QuadraticBezier<Pt<$d>> {
            fn dctrl(&self) -> Vec<[R; $d]> { Curve::ctrl(&self.derivative()) }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
        }
        impl Ops<$d> for CubicBezier<Pt<$d>> {
            fn dctrl(&self) -> Vec<[R; $d]> { Curve::ctrl(&self.derivative()) }
            fn bounds(&self) -> Option<Vec<(R, R)>> { Some(self.bounding_box().to_vec()) }
        }
        ops!(@g $d 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 33);
    )* };
    (@g $d:literal $($n:literal)*) => { $(
        impl Ops<$d> for Bezier<Pt<$d>, $n> {
            fn dctrl(&self) -> Vec<[R; $d]> { let x: Bezier<Pt<$d>, { $n - 1 }> = self.derivative(); Curve::ctrl(&x) }
        }
    )* };
}
ops!(1 2 3 4 5 6 7 8 9 10);

const TS: [f64; 12] = [0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 0.7, 1.0 / 3.0, 0.62, 0.999, 0.003, 0.4375];
const NS: [usize; 6] = [1, 2, 3, 8, 33, 100];

fn pts<const DIM: usize>(what: &str, a: &[[R; DIM]], b: &[[R; DIM]], tol: f64) -> Res {
    need!(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y, tol)), "{what}: {a:?} instead of {b:?}");
    Ok(())
}

fn curve_case<const DIM: usize, C: Ops<DIM>>(c: &[[R; DIM]], ms: &[Map<DIM>], ctx: &mut Ctx) -> Res {
    let x = C::build(c);
    ctx.state();
    let n = C::N;
    let s0 = scale_of(c);
    // the control box
    for t in TS {
        let p = x.eval(t as R);
        for d in 0..DIM {
            let lo = c.iter().fold(f64::INFINITY, |a, p| a.min(p[d] as f64)) - REL * s0;
            let hi = c.iter().fold(-f64::INFINITY, |a, p| a.max(p[d] as f64)) + REL * s0;
            need!(p[d] as f64 >= lo && p[d] as f64 <= hi, "{} {c:?} at {t}: axis {d} is {:?}, outside of the control box [{lo:?}, {hi:?}]", C::kind(), p[d]);
        }
    }
    // the same curve backwards
    let rc: Vec<[R; DIM]> = c.iter().rev().cloned().collect();
    let rev = C::build(&rc);
    let tol = 4.0 * REL * s0;
    for t in TS {
        let t = t as R;
        let u = 1.0 - t;
        pts(&format!("reversed {} {c:?} at {t:?}", C::kind()), &[rev.eval(t)], &[x.eval(u)], tol)?;
        let ((ra, rb), (a, b)) = (rev.split(t), x.split(u));
        let back = |v: Vec<[R; DIM]>| v.into_iter().rev().collect::<Vec<_>>();
        pts(&format!("reversed {} {c:?}: left of split({t:?})", C::kind()), &back(ra.ctrl()), &b.ctrl(), tol)?;
        pts(&format!("reversed {} {c:?}: right of split({t:?})", C::kind()), &back(rb.ctrl()), &a.ctrl(), tol)?;
        ctx.trans(4);
    }
    for k in NS {
        if let (Some(a), Some(b)) = (x.arclen(k), rev.arclen(k)) {
            need!((a as f64 - b as f64).abs() <= tol * (k as f64 + 1.0), "{} {c:?}: arclen({k}) {a:?}, backwards {b:?}", C::kind());
            ctx.trans(2);
        }
    }
    let btol = 4.0 * REL * s0 + 64.0 * EPS;
    if let (Some(a), Some(b)) = (x.bounds(), rev.bounds()) {
        for d in 0..DIM {
            need!(
                (a[d].0 as f64 - b[d].0 as f64).abs() <= btol && (a[d].1 as f64 - b[d].1 as f64).abs() <= btol,
                "{} {c:?}: bounding box {a:?}, backwards {b:?}",
                C::kind()
            );
        }
        ctx.trans(2);
    }
    ctx.class("reversed");
    // query points: in general position, and beside the curve
    let mut q = [0.0 as R; DIM];
    let mut q2 = x.eval(0.37);
    for d in 0..DIM {
        q[d] = [0.31, -0.77, 1.9, 0.05][d % 4];
        q2[d] += (s0 * [0.013, -0.021, 0.005][d % 3]) as R;
    }
    let qs = [q, q2];
    let mut ms = ms.to_vec();
    for p in [q, q2, c[0], c[n - 1]] {
        to_origin(p, &mut ms);
    }
    let cols = axes(c);
    let bb = x.bounds();
    let dists = qs.map(|q| x.dist(q) as f64);
    let lens: Vec<Option<R>> = NS.iter().map(|k| x.arclen(*k)).collect();
    let dc = x.dctrl();
    let halves: Vec<(C, C)> = TS.iter().map(|t| x.split(*t as R)).collect();
    let vals: Vec<[R; DIM]> = TS.iter().map(|t| x.eval(*t as R)).collect();
    for m in &ms {
        let tc: Vec<[R; DIM]> = c.iter().map(|p| m.at(*p)).collect();
        let y = C::build(&tc);
        ctx.state();
        let s1 = scale_of(&tc).max(m.s * s0).max(m.v.iter().fold(0.0, |a: f64, x| a.max(x.abs())));
        if !squares(s1) || !squares(s0 * m.s) || !squares(s0) {
            ctx.class("out of the scalar's range");
            continue;
        }
        let tol = 4.0 * REL * s1;
        let who = || format!("{} {c:?} under {m:?}", C::kind());
        for (i, t) in TS.iter().enumerate() {
            let t = *t as R;
            if !same(y.eval(t), m.at(vals[i]), tol) {
                return Err(Violation(format!("{}: eval({t:?}) is {:?}, image of the original point is {:?}", who(), y.eval(t), m.at(vals[i]))));
            }
            let (a, b) = y.split(t);
            for (side, got, want) in [("left", a.ctrl(), halves[i].0.ctrl()), ("right", b.ctrl(), halves[i].1.ctrl())] {
                for (g, w) in got.iter().zip(&want) {
                    need!(same(*g, m.at(*w), tol), "{}: {side} half of split({t:?}) is {got:?}, image of the original half is {:?}", who(), want.iter().map(|w| m.at(*w)).collect::<Vec<_>>());
                }
            }
            ctx.trans(2);
        }
        let dy = y.dctrl();
        for (g, w) in dy.iter().zip(&dc) {
            need!(same(*g, m.linr(*w), 4.0 * n as f64 * tol), "{}: derivative {dy:?}, image {:?}", who(), dc.iter().map(|w| m.linr(*w)).collect::<Vec<_>>());
        }
        for (k, l) in NS.iter().zip(&lens) {
            if let (Some(a), Some(b)) = (y.arclen(*k), l) {
                need!(
                    (a as f64 - *b as f64 * m.s).abs() <= tol * (*k as f64 + 1.0),
                    "{}: arclen({k}) is {a:?}, {} times the original {b:?} expected",
                    who(), m.s
                );
                ctx.trans(1);
            }
        }
        if let (Some(a), Some(b)) = (y.bounds(), &bb) {
            for d in 0..DIM {
                let mut l = [0.0 as R; DIM];
                let mut h = [0.0 as R; DIM];
                for e in 0..DIM {
                    l[e] = b[e].0;
                    h[e] = b[e].1;
                }
                let (l, h) = (m.at(l)[d] as f64, m.at(h)[d] as f64);
                let (l, h) = if m.sign[d] < 0.0 { (h, l) } else { (l, h) };
                let btol = tol + 64.0 * EPS * (1.0 + m.s);
                need!(
                    (a[d].0 as f64 - l).abs() <= btol && (a[d].1 as f64 - h).abs() <= btol,
                    "{}: bounding box on axis {d} is {:?}, image of the original is ({l:?}, {h:?})",
                    who(), a[d]
                );
            }
            ctx.trans(1);
        }
        for (q, dist) in qs.iter().zip(dists) {
            let tq = m.at(*q);
            let got = y.dist(tq) as f64;
            ctx.trans(1);
            ctx.outcome(got.to_bits());
            // squared sizes, in the units of the image and of the original
            let s2 = (s1.max(scale_of(&[tq]))).powi(2) * DIM as f64 + 1e-300;
            let o2 = s0.max(scale_of(&[*q])).powi(2) * DIM as f64 + 1e-300;
            let tol2 = 16.0 * REL * s2.max(o2 * m.s * m.s);
            if !C::SEARCH {
                if m.s * seglen(c) > 4.0 * EPS.sqrt() && seglen(c) > 4.0 * EPS.sqrt() {
                    need!((got - dist * m.s).abs() <= tol2.sqrt() * 1e-3 + 64.0 * tol + if got > 0.0 { tol2 / got } else { 0.0 }, "{}: distance of {tq:?} is {got:?}, {} times the original {dist:?} expected", who(), m.s);
                    ctx.class("segment distance");
                }
            } else if !coarse_tie(&cols, &to64(*q), 4.0 * tol2 / (m.s * m.s)) {
                need!(
                    (got * got - dist * dist * m.s * m.s).abs() <= tol2,
                    "{}: distance of {tq:?} is {got:?}, {} times the original {dist:?} expected",
                    who(), m.s
                );
                ctx.class("search distance");
            }
        }
    }
    ctx.trace();
    ctx.sample(|| format!("{} {c:?} under {} maps", C::kind(), ms.len()));
    Ok(())
}
/// Coordinates of size s can be squared and added without leaving the range of the scalar.
fn squares(s: f64) -> bool {
    s == 0.0 || s * s < R::MAX as f64 * 1e-6 && s * s > R::MIN_POSITIVE as f64 * 1e12
}
fn seglen<const DIM: usize>(c: &[[R; DIM]]) -> f64 {
    (0..DIM).map(|d| (c[0][d] as f64 - c[c.len() - 1][d] as f64).powi(2)).sum::<f64>().sqrt()
}

fn sp<const DIM: usize, C: Ops<DIM> + 'static>(name: &str, al: Vec<R>, full: bool) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full))
}
fn sps<const DIM: usize, C: Ops<DIM> + 'static>(name: &str, sp: Space) -> Suite {
    let n = C::N;
    let ms = Arc::new(maps::<DIM>());
    suite(
        format!("{name}-N{n}-{DIM}d-{}", sp.tag()),
        format!("{} x {} maps (signed axis permutations, scalings x translations x mirror) and reversal", sp.what(n, DIM), ms.len()),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            curve_case::<DIM, C>(&c, &ms, ctx)
        },
    )
}

fn spline_case(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    if knots[d] == knots[c] {
        return Ok(());
    }
    ctx.state();
    let p = pattern_s(c, 2, 0, scale);
    let s = make(c, d, 2, knots, &p).unwrap();
    let s0 = p.iter().flatten().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
    let mut o = [0.0 as R; 2];
    let mut q = [0.0 as R; 2];
    let ts = inside(knots, c, d, &[0.5, 0.2, 0.85]);
    // control box
    for &t in &ts {
        if s.eval(t, &mut o).is_err() {
            return Err(Violation(format!("knots {knots:?} (C={c}, D={d}): eval({t:?}) fails")));
        }
        for k in 0..2 {
            let lo = p.iter().fold(f64::INFINITY, |a, x| a.min(x[k] as f64)) - 4.0 * REL * s0;
            let hi = p.iter().fold(-f64::INFINITY, |a, x| a.max(x[k] as f64)) + 4.0 * REL * s0;
            need!(o[k] as f64 >= lo && o[k] as f64 <= hi, "knots {knots:?} (C={c}, D={d}), control points {p:?}: eval({t:?}) = {o:?} leaves the control box");
        }
        ctx.trans(1);
    }
    // affine maps of the control points
    for m in maps::<2>().iter().step_by(3) {
        let tp: Vec<Vec<R>> = p.iter().map(|x| m.at([x[0], x[1]]).to_vec()).collect();
        let y = make(c, d, 2, knots, &tp).unwrap();
        let s1 = tp.iter().flatten().fold(s0 * m.s, |a, x| a.max((*x as f64).abs())).max(m.v.iter().fold(0.0, |a: f64, x| a.max(x.abs())));
        if !squares(s1) || !squares(s0 * m.s) || !squares(s0) {
            continue;
        }
        let tol = 8.0 * REL * s1;
        for &t in &ts {
            s.eval(t, &mut o).ok();
            if y.eval(t, &mut q).is_err() || !same(q, m.at(o), tol) {
                return Err(Violation(format!("knots {knots:?} (C={c}, D={d}) under {m:?}: eval({t:?}) is {q:?}, image of the original is {:?}", m.at(o))));
            }
            ctx.trans(2);
        }
        for n in [1usize, 7] {
            let (a, b) = (s.arclen(n) as f64, y.arclen(n) as f64);
            need!((b - m.s * a).abs() <= (n as f64 + 1.0) * tol, "knots {knots:?} (C={c}, D={d}) under {m:?}: arclen({n}) is {b:?}, original {a:?}");
            ctx.trans(2);
        }
    }
    // backwards
    let rk: Vec<R> = knots.iter().rev().map(|x| -*x).collect();
    let rp: Vec<Vec<R>> = p.iter().rev().cloned().collect();
    let y = match make(c, d, 2, &rk, &rp) {
        Ok(y) => y,
        Err(e) => return Err(Violation(format!("mirrored knots {rk:?} refused: {e:?}"))),
    };
    let jump = |t: R| knots.iter().filter(|k| **k == t).count() > d && t > knots[d] && t < knots[c];
    let fragile = |t: R| knots.iter().any(|k| (*k - t).abs() <= 4.0 * R::EPSILON * (t.abs() + 1.0) && jump(*k));
    for &t in &ts {
        if fragile(t) {
            ctx.class("jump skipped");
            continue;
        }
        s.eval(t, &mut o).ok();
        if y.eval(-t, &mut q).is_err() || !same(q, o, 8.0 * REL * s0) {
            return Err(Violation(format!("knots {knots:?} (C={c}, D={d}) backwards: eval({:?}) is {q:?}, original at {t:?} is {o:?}", -t)));
        }
        ctx.trans(2);
        ctx.class("reversed spline");
    }
    if !knots.iter().any(|k| jump(*k)) {
        let (a, b) = (s.arclen(9) as f64, y.arclen(9) as f64);
        let w = (0..knots.len() - d.max(1)).map(|i| knots[i + d.max(1)] as f64 - knots[i] as f64).filter(|x| *x > 0.0).fold(f64::INFINITY, f64::min);
        let span = knots.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
        need!((a - b).abs() <= 10.0 * s0 * (8.0 * REL + 64.0 * EPS * span / w), "knots {knots:?} (C={c}, D={d}): arclen {a:?}, backwards {b:?}");
    }
    ctx.trace();
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    type L<const D: usize> = LineSegment<Pt<D>>;
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    let mut v = vec![
        sp::<1, L<1>>("line", a(4, 13, 16), true).must(&["reversed", "segment distance"]),
        sp::<2, L<2>>("line", a(2, 5, 7), true).must(&["reversed", "segment distance"]),
        sp::<3, L<3>>("line", a(2, 3, 4), true),
        sp::<1, Q<1>>("quadratic", a(3, 10, 14), true).must(&["reversed", "search distance"]),
        sp::<2, Q<2>>("quadratic", a(2, 3, 4), true).must(&["reversed", "search distance"]),
        sp::<3, Q<3>>("quadratic", a(2, 9, 14), false),
        sp::<4, Q<4>>("quadratic", a(2, 8, 14), false),
        sp::<1, C<1>>("cubic", a(2, 6, 9), true).must(&["reversed", "search distance"]),
        sp::<2, C<2>>("cubic", a(2, 2, 3), true).must(&["reversed", "search distance"]),
        sp::<2, C<2>>("cubic", a(2, 5, 9), false),
        sp::<3, C<3>>("cubic", a(2, 5, 8), false),
        sp::<4, C<4>>("cubic", a(2, 5, 8), false),
        sp::<1, Bezier<Pt<1>, 2>>("generic", a(3, 8, 14), true),
        sp::<2, Bezier<Pt<2>, 3>>("generic", a(2, 7, 12), false),
        sp::<2, Bezier<Pt<2>, 4>>("generic", a(2, 4, 7), false),
        sp::<3, Bezier<Pt<3>, 5>>("generic", a(2, 3, 4), false),
        sp::<2, Bezier<Pt<2>, 6>>("generic", a(2, 2, 3), false),
        sp::<4, Bezier<Pt<4>, 4>>("generic", a(2, 3, 6), false),
        sp::<8, L<8>>("line", a(2, 6, 12), false),
        sp::<8, Q<8>>("quadratic", a(2, 4, 8), false),
        sp::<8, C<8>>("cubic", a(2, 3, 5), false),
        sp::<8, Bezier<Pt<8>, 3>>("generic", a(2, 3, 8), false),
    ];
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, L<$d>>("line", Space::points(npoints(tier, 3))));
            v.push(sps::<$d, Q<$d>>("quadratic", Space::points(npoints(tier, 5))));
            v.push(sps::<$d, C<$d>>("cubic", Space::points(npoints(tier, 6))));
            v.push(sps::<$d, Bezier<Pt<$d>, 2>>("generic", Space::points(npoints(tier, 4))));
            v.push(sps::<$d, Bezier<Pt<$d>, 3>>("generic", Space::points(npoints(tier, 5))));
            v.push(sps::<$d, Bezier<Pt<$d>, 5>>("generic", Space::points(npoints(tier, 7))));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(sps::<3, Bezier<Pt<3>, $n>>("generic-long", Space::patterns())); )* };
    }
    longs!(6 7 8 9 10 11 12 13 16 17 24 33);
    let mut w = word_suites("spline", tier, [200, 2_000, 40_000], spline_case);
    w[6].must = vec!["reversed spline"];
    v.extend(w);
    v
}
