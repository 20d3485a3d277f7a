//! C05: bounding boxes contain the curve and are tight, per axis.
use crate::core::*;
use crate::model::*;
use crate::need;
use crate::shapes::*;
use stroke::{CubicBezier, LineSegment, QuadraticBezier};

pub trait Boxed<const DIM: usize>: Curve<DIM> {
    fn bbox(&self) -> Vec<(R, R)>;
}
macro_rules! boxed {
    ($($d:literal)*) => { $(
        impl Boxed<$d> for LineSegment<Pt<$d>> { fn bbox(&self) -> Vec<(R, R)> { self.bounding_box().to_vec() } }
        impl Boxed<$d> for QuadraticBezier<Pt<$d>> { fn bbox(&self) -> Vec<(R, R)> { self.bounding_box().to_vec() } }
        impl Boxed<$d> for CubicBezier<Pt<$d>> { fn bbox(&self) -> Vec<(R, R)> { self.bounding_box().to_vec() } }
    )* };
}
boxed!(1 2 3 4 5 6 7 8 9 10 16);

pub fn check<const DIM: usize, C: Boxed<DIM>>(c: &[[R; DIM]], ctx: &mut Ctx) -> Res {
    let bb = C::build(c).bbox();
    ctx.state();
    ctx.trans(1);
    need!(bb.len() == DIM, "{} {c:?}: bounding box has {} axes", C::kind(), bb.len());
    for (d, col) in axes(c).iter().enumerate() {
        let s = col.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let (lo, hi) = bern_range(col, 1e-15 * s);
        // only root finding (inner control points) may use absolute thresholds
        let tol = REL * s + if C::N > 2 { 64.0 * EPS } else { 0.0 };
        let (gl, gh) = (bb[d].0 as f64, bb[d].1 as f64);
        need!(
            (gl - lo).abs() <= tol && (gh - hi).abs() <= tol,
            "{} {c:?}: bounding box on axis {d} is [{gl:?}, {gh:?}], the curve's range is [{lo:?}, {hi:?}]",
            C::kind()
        );
        let (el, eh) = (col[0].min(col[col.len() - 1]), col[0].max(col[col.len() - 1]));
        ctx.class(match (lo < el - tol, hi > eh + tol) {
            (false, false) => "extent at the ends",
            (true, false) | (false, true) => "one interior extremum",
            (true, true) => "interior minimum and maximum",
        });
        ctx.outcome((gl).to_bits() ^ gh.to_bits().rotate_left(17));
    }
    ctx.trace();
    Ok(())
}

fn one<C: Boxed<1> + 'static>(name: &str, al: Vec<R>, what: &str) -> Suite {
    let n = C::N;
    suite(
        format!("{name}-{what}-a{}", al.len()),
        format!("all {n}-tuples over {al:?}"),
        ipow(al.len(), n),
        move |i, ctx| {
            let mut dg = Digits(i);
            let c: Vec<[R; 1]> = (0..n).map(|_| [al[dg.take(al.len())]]).collect();
            ctx.sample(|| format!("{c:?}"));
            check::<1, C>(&c, ctx)
        },
    )
}
fn spoints<const DIM: usize, C: Boxed<DIM> + 'static>(name: &str, k: usize) -> Suite {
    spaced::<DIM, C>(name, Space::points(k))
}
fn scales<const DIM: usize, C: Boxed<DIM> + 'static>(name: &str, al: Vec<R>) -> Suite {
    spaced::<DIM, C>(name, Space::scaled(al, false))
}
fn spaced<const DIM: usize, C: Boxed<DIM> + 'static>(name: &str, sp: Space) -> Suite {
    suite(
        format!("{name}-{DIM}d-{}", sp.tag()),
        sp.what(C::N, DIM),
        sp.total::<DIM>(C::N),
        move |i, ctx| check::<DIM, C>(&sp.get::<DIM>(i, C::N).0, ctx),
    )
}
fn many<const DIM: usize, C: Boxed<DIM> + 'static>(name: &str, al: Vec<R>) -> Suite {
    let n = C::N;
    suite(
        format!("{name}-{DIM}d-a{}", al.len()),
        format!("all {n}-point columns over {al:?}, on each of {DIM} axes"),
        ipow(al.len(), n),
        move |i, ctx| check::<DIM, C>(&columns(i, n, &al), ctx),
    )
}

/// Moves x by k units in the last place.
pub fn ulps(x: R, k: i32) -> R {
    let mut x = x;
    for _ in 0..k.abs() {
        x = if k > 0 { next_up(x) } else { next_down(x) };
    }
    x
}

/// Cubics that are degree-elevated quadratics or lines (and quadratics that are elevated lines), each inner
/// control point moved by a few ulps: the leading coefficient is rounding noise.
fn elevated(al: Vec<R>, moves: Vec<i32>) -> Vec<Suite> {
    let a2 = al.clone();
    let m2 = moves.clone();
    let na = al.len();
    let nm = moves.len();
    vec![
        suite(
            format!("cubic-elevated-quadratic-a{na}-m{nm}"),
            format!("all quadratics over {al:?} elevated to cubics, inner control points moved by each of {moves:?} ulps"),
            ipow(na, 3) * ipow(nm, 2),
            move |i, ctx| {
                let mut dg = Digits(i);
                let q: Vec<R> = dg.vals(&al, 3);
                let (m1, m2) = (moves[dg.take(nm)], moves[dg.take(nm)]);
                let c1 = (q[0] + q[1] * 2.0) / 3.0;
                let c2 = (q[1] * 2.0 + q[2]) / 3.0;
                check::<1, CubicBezier<Pt<1>>>(&[[q[0]], [ulps(c1, m1)], [ulps(c2, m2)], [q[2]]], ctx)
            },
        )
        .must(&["one interior extremum", "extent at the ends"]),
        suite(
            format!("elevated-lines-a{na}-m{nm}"),
            format!("all lines over {a2:?} elevated to quadratics and cubics, inner control points moved by each of {m2:?} ulps"),
            ipow(na, 2) * ipow(nm, 2),
            move |i, ctx| {
                let mut dg = Digits(i);
                let q: Vec<R> = dg.vals(&a2, 2);
                let (x, y) = (m2[dg.take(nm)], m2[dg.take(nm)]);
                let c1 = (q[0] * 2.0 + q[1]) / 3.0;
                let c2 = (q[0] + q[1] * 2.0) / 3.0;
                check::<1, CubicBezier<Pt<1>>>(&[[q[0]], [ulps(c1, x)], [ulps(c2, y)], [q[1]]], ctx)?;
                check::<1, QuadraticBezier<Pt<1>>>(&[[q[0]], [ulps((q[0] + q[1]) / 2.0, x)], [q[1]]], ctx)
            },
        ),
    ]
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let f = |v: &[f64]| v.iter().map(|x| *x as R).collect::<Vec<R>>();
    // thirds and non-dyadic values, both signs, several magnitudes
    let wide = f(&[
        0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 0.1, 1.0 / 3.0, -0.7, 10.0, 0.9, 1.1, 3.0, -2.0, 4.0, 0.25, 2.0 / 3.0, 7.0, -100.0,
        12345.678, 1e6, -1e6, 1e-6, -1e-3, 6.0, -0.2, 5.0, 1.5,
    ]);
    let ints = f(&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, -1.0, -2.0, -3.0]);
    let off = f(&[1000.0, 1001.0, 999.0, 1000.5, 1000.1, 1003.0, 998.2, 1000.0 + 1.0 / 3.0]);
    let near = f(&[1.0, 1.0 + 1e-7, 1.0 - 1e-7, 1.0 + 3e-7, 1.0 + 1e-12, 1.0 - 1e-12, 1.0 + 1e-15, 0.0, 2.0]);
    let tiny = f(&[0.0, 1e-8, -1e-8, 3e-8, 1e-5, -2e-5, 2.5e-5, 1e-12]);
    let huge = f(&[0.0, 1e12, -1e12, 3e12, 1e9, -4e11, 2.5e12, 1.0]);
    let cut = |v: &[R], s: usize, q: usize, t: usize| v[..tier.pick(s, q, t).min(v.len())].to_vec();
    let ends: &[&'static str] = &["extent at the ends", "one interior extremum"];
    let both: &[&'static str] = &["extent at the ends", "one interior extremum", "interior minimum and maximum"];
    type L<const D: usize> = LineSegment<Pt<D>>;
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    let mut v = vec![
        one::<L<1>>("line", wide.clone(), "wide"),
        one::<Q<1>>("quadratic", cut(&wide, 10, 28, 28), "wide").must(ends),
        one::<Q<1>>("quadratic", ints.clone(), "ints").must(ends),
        one::<Q<1>>("quadratic", off.clone(), "offset"),
        one::<Q<1>>("quadratic", near.clone(), "near"),
        one::<Q<1>>("quadratic", tiny.clone(), "tiny"),
        one::<Q<1>>("quadratic", huge.clone(), "huge"),
        one::<C<1>>("cubic", cut(&wide, 7, 20, 28), "wide").must(both),
        one::<C<1>>("cubic", cut(&ints, 6, 16, 16), "ints").must(both),
        one::<C<1>>("cubic", off, "offset").must(both),
        one::<C<1>>("cubic", near, "near"),
        one::<C<1>>("cubic", tiny, "tiny"),
        one::<C<1>>("cubic", huge, "huge"),
    ];
    v.extend(elevated(cut(&wide, 6, 14, 28), tier.pick(vec![0, 1, -1], vec![0, 1, -1, 2, -3, 9], vec![0, 1, -1, 2, -2, 3, -3, 7, 17, -40, 200])));
    macro_rules! dims {
        ($($d:literal)*) => { $(
            v.push(many::<$d, L<$d>>("line", cut(&wide, 6, 16, 28)));
            v.push(many::<$d, Q<$d>>("quadratic", cut(&wide, 6, 16, 28)));
            v.push(many::<$d, C<$d>>("cubic", cut(&wide, 5, 9, 16)));
        )* };
    }
    dims!(2 3 4 5 6 8 16);
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(spoints::<$d, L<$d>>("line", npoints(tier, 2)));
            v.push(spoints::<$d, Q<$d>>("quadratic", npoints(tier, 3)));
            v.push(spoints::<$d, C<$d>>("cubic", npoints(tier, 4)));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    v.push(scales::<1, L<1>>("line", wide.clone()));
    v.push(scales::<3, L<3>>("line", cut(&wide, 6, 16, 28)));
    v.push(scales::<1, Q<1>>("quadratic", cut(&wide, 8, 16, 28)));
    v.push(scales::<2, Q<2>>("quadratic", cut(&wide, 6, 16, 28)));
    v.push(scales::<1, C<1>>("cubic", cut(&wide, 5, 10, 16)));
    v.push(scales::<3, C<3>>("cubic", cut(&wide, 5, 8, 16)));
    v
}
