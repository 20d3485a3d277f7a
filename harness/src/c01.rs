//! C01: Bézier evaluation is the Bernstein combination of the control points.
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::shapes::*;
use crate::need;
use std::sync::Arc;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

/// A parameter grid with the Bernstein weights of degree n precomputed by the model.
struct Grid {
    t: Vec<R>,
    w: Vec<Vec<DD>>,
}
fn grid(n: usize, t: Vec<R>) -> Arc<Grid> {
    let w = t.iter().map(|t| bern_weights(n, dd(*t as f64))).collect();
    Arc::new(Grid { t, w })
}

fn check<const DIM: usize, C: Curve<DIM>>(c: &[[R; DIM]], g: &Grid, ctx: &mut Ctx) -> Res {
    let curve = C::build(c);
    ctx.state();
    let cols: Vec<Vec<f64>> = axes(c);
    let scale: Vec<f64> = cols.iter().map(|a| a.iter().fold(0.0f64, |m, x| m.max(x.abs()))).collect();
    for (t, w) in g.t.iter().zip(&g.w) {
        let mut want = [ZERO; DIM];
        for d in 0..DIM {
            want[d] = dot(w, &cols[d]);
        }
        let mut bad: Option<Violation> = None;
        let mut calls = 0;
        curve.evals(*t, &mut |name, got| {
            calls += 1;
            for d in 0..DIM {
                if !near(got[d], want[d], REL * scale[d]) && bad.is_none() {
                    bad = Some(Violation(format!(
                        "{name} of control points {c:?} at t={t:?}: axis {d} is {:?}, Bernstein combination is {:?}",
                        got[d],
                        want[d].f()
                    )));
                }
            }
            ctx.outcome((got[0] as f64).to_bits());
        });
        if let Some(v) = bad {
            return Err(v);
        }
        ctx.trans(calls);
    }
    // the ends of the parameter range are the end control points
    for (t, e) in [(0.0 as R, c[0]), (1.0, c[c.len() - 1])] {
        let got = curve.eval(t);
        for d in 0..DIM {
            need!(
                near(got[d], dd(e[d] as f64), REL * scale[d]),
                "{} {c:?} at t={t}: axis {d} is {:?}, end control point has {:?}",
                C::kind(), got[d], e[d]
            );
        }
    }
    ctx.trans(2);
    ctx.trace();
    if scale.iter().all(|s| *s == 0.0) {
        ctx.class("all-zero curve");
    } else {
        ctx.class("non-trivial curve");
    }
    ctx.sample(|| format!("{} {:?}: {} parameters", C::kind(), c, g.t.len()));
    Ok(())
}

/// 1-D: every tuple over the alphabet.
fn one_d<C: Curve<1> + 'static>(name: &str, al: Vec<R>, t: Vec<R>) -> Suite {
    let g = grid(C::N - 1, t);
    let n = C::N;
    suite(
        format!("{name}-N{n}-1d-a{}", al.len()),
        format!("all {n}-tuples over {al:?} x {} parameters, every evaluation entry point", g.t.len()),
        ipow(al.len(), n),
        move |i, ctx| {
            let mut dg = Digits(i);
            let c: Vec<[R; 1]> = (0..n).map(|_| [al[dg.take(al.len())]]).collect();
            check::<1, C>(&c, &g, ctx)
        },
    )
    .must(&["non-trivial curve"])
}

/// D dimensions: axis d of case i carries the column number i + d*stride of the list of all 1-D columns, so
/// that every column occurs on every axis next to different neighbours.
fn multi_d<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, al: Vec<R>, t: Vec<R>) -> Suite {
    space::<DIM, C>(name, Space::new(al, false), t)
}
fn space<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, sp: Space, t: Vec<R>) -> Suite {
    let g = grid(C::N - 1, t);
    let n = C::N;
    suite(
        format!("{name}-N{n}-{DIM}d-{}", sp.tag()),
        format!("{} x {} parameters", sp.what(n, DIM), g.t.len()),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            check::<DIM, C>(&c, &g, ctx)
        },
    )
}

/// Long curves: unit vectors, alternating, ramps and all-equal columns.
fn long<const N: usize>(t: Vec<R>) -> Suite {
    let g = grid(N - 1, t);
    suite(
        format!("generic-N{N}-patterns"),
        format!("{N} unit columns, ramp, alternating, constant, geometric; {} parameters", g.t.len()),
        N as u64 + 4,
        move |i, ctx| {
            let i = i as usize;
            let c: Vec<[R; 2]> = (0..N)
                .map(|k| {
                    let v = if i < N {
                        (k == i) as usize as R
                    } else if i == N {
                        k as R - 2.5
                    } else if i == N + 1 {
                        if k % 2 == 0 { 1.0 } else { -1.0 }
                    } else if i == N + 2 {
                        7.25
                    } else {
                        (1.5 as R).powi(k as i32)
                    };
                    [v, 3.0 - v]
                })
                .collect();
            check::<2, Bezier<Pt<2>, N>>(&c, &g, ctx)
        },
    )
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let sm = params_small;
    let fine = || params_fine(tier.pick(256, 1024, 8192));
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let mut v = vec![
        one_d::<LineSegment<Pt<1>>>("line", a(8, 16, 16), fine()),
        one_d::<QuadraticBezier<Pt<1>>>("quadratic", a(7, 16, 16), sm()),
        one_d::<QuadraticBezier<Pt<1>>>("quadratic-fine", a(3, 6, 10), fine()),
        one_d::<CubicBezier<Pt<1>>>("cubic", a(5, 14, 16), sm()),
        one_d::<CubicBezier<Pt<1>>>("cubic-fine", a(2, 5, 8), fine()),
        one_d::<Bezier<Pt<1>, 1>>("generic", a(16, 16, 16), fine()),
        one_d::<Bezier<Pt<1>, 2>>("generic", a(8, 16, 16), fine()),
        one_d::<Bezier<Pt<1>, 3>>("generic", a(5, 14, 16), sm()),
        one_d::<Bezier<Pt<1>, 4>>("generic", a(4, 10, 14), sm()),
        one_d::<Bezier<Pt<1>, 4>>("generic-fine", a(2, 4, 7), fine()),
        one_d::<Bezier<Pt<1>, 5>>("generic", a(3, 7, 10), sm()),
        one_d::<Bezier<Pt<1>, 6>>("generic", a(3, 5, 7), sm()),
        one_d::<Bezier<Pt<1>, 7>>("generic", a(2, 4, 5), sm()),
        one_d::<Bezier<Pt<1>, 8>>("generic", a(2, 3, 4), sm()),
        one_d::<Bezier<Pt<1>, 9>>("generic", a(2, 3, 3), sm()),
        one_d::<Bezier<Pt<1>, 10>>("generic", a(2, 2, 3), sm()),
        one_d::<Bezier<Pt<1>, 11>>("generic", a(2, 2, 3), sm()),
        one_d::<Bezier<Pt<1>, 12>>("generic", a(2, 2, 2), sm()),
    ];
    v.push(long::<2>(fine()));
    v.push(long::<3>(fine()));
    v.push(long::<4>(fine()));
    v.push(long::<5>(fine()));
    v.push(long::<6>(fine()));
    v.push(long::<7>(fine()));
    v.push(long::<8>(fine()));
    v.push(long::<9>(fine()));
    v.push(long::<10>(fine()));
    v.push(long::<13>(fine()));
    v.push(long::<16>(fine()));
    v.push(long::<17>(fine()));
    v.push(long::<24>(fine()));
    v.push(long::<33>(sm()));
    v.push(long::<11>(sm()));
    v.push(long::<12>(sm()));
    v.push(long::<14>(sm()));
    v.push(long::<15>(sm()));
    v.push(long::<20>(sm()));
    v.push(long::<48>(sm()));
    v.push(long::<64>(sm()));
    macro_rules! dims {
        ($($d:literal)*) => { $(
            v.push(multi_d::<$d, LineSegment<Pt<$d>>>("line", a(5, 10, 16), sm()));
            v.push(multi_d::<$d, QuadraticBezier<Pt<$d>>>("quadratic", a(4, 8, 16), sm()));
            v.push(multi_d::<$d, CubicBezier<Pt<$d>>>("cubic", a(3, 6, 10), sm()));
            v.push(multi_d::<$d, Bezier<Pt<$d>, 2>>("generic", a(3, 6, 10), sm()));
            v.push(multi_d::<$d, Bezier<Pt<$d>, 3>>("generic", a(3, 6, 10), sm()));
            v.push(multi_d::<$d, Bezier<Pt<$d>, 4>>("generic", a(3, 5, 10), sm()));
            v.push(multi_d::<$d, Bezier<Pt<$d>, 6>>("generic", a(2, 3, 5), sm()));
        )* };
    }
    dims!(2 3 4 5 8);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(space::<1, LineSegment<Pt<1>>>("line", s(4, 8, 10), sm()));
    v.push(space::<1, QuadraticBezier<Pt<1>>>("quadratic", s(3, 6, 8), sm()));
    v.push(space::<1, CubicBezier<Pt<1>>>("cubic", s(2, 5, 6), sm()));
    v.push(space::<1, Bezier<Pt<1>, 3>>("generic", s(2, 5, 6), sm()));
    v.push(space::<1, Bezier<Pt<1>, 5>>("generic", s(2, 3, 4), sm()));
    v.push(space::<2, CubicBezier<Pt<2>>>("cubic", s(2, 2, 3), sm()));
    v.push(space::<2, Bezier<Pt<2>, 4>>("generic", s(2, 2, 3), sm()));
    v.push(multi_d::<16, LineSegment<Pt<16>>>("line", a(4, 6, 10), sm()));
    v.push(multi_d::<16, QuadraticBezier<Pt<16>>>("quadratic", a(3, 5, 7), sm()));
    v.push(multi_d::<16, CubicBezier<Pt<16>>>("cubic", a(2, 4, 5), sm()));
    v.push(multi_d::<16, Bezier<Pt<16>, 4>>("generic", a(2, 3, 5), sm()));
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(space::<$d, LineSegment<Pt<$d>>>("line", Space::points(npoints(tier, 2)), sm()));
            v.push(space::<$d, QuadraticBezier<Pt<$d>>>("quadratic", Space::points(npoints(tier, 3)), sm()));
            v.push(space::<$d, CubicBezier<Pt<$d>>>("cubic", Space::points(npoints(tier, 4)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 1>>("generic", Space::points(npoints(tier, 1)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 2>>("generic", Space::points(npoints(tier, 2)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 3>>("generic", Space::points(npoints(tier, 3)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 4>>("generic", Space::points(npoints(tier, 4)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 5>>("generic", Space::points(npoints(tier, 5)), sm()));
            v.push(space::<$d, Bezier<Pt<$d>, 6>>("generic", Space::points(npoints(tier, 6)), sm()));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(space::<3, Bezier<Pt<3>, $n>>("generic-long", Space::patterns(), fine())); )* };
    }
    longs!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 24 25 30 31 32 33 40 48 63 64 65);
    #[cfg(target_pointer_width = "64")]
    v.extend(ulps());
    v
}

/// Parameters at every binade and next to every multiple of 1/64: all floats within 2 ulps.
#[cfg(target_pointer_width = "64")]
fn ulps() -> Vec<Suite> {
    let mut t: Vec<R> = vec![];
    for k in 0..=64 {
        let mut x = k as R / 64.0;
        let mut y = x;
        for _ in 0..2 {
            x = next_up(x);
            y = next_down(y);
            if x <= 1.0 {
                t.push(x);
            }
            if y >= 0.0 {
                t.push(y);
            }
        }
    }
    let mut e = 1.0;
    while e > 1e-300 {
        t.push(e);
        t.push(e * 0.7);
        e *= 0.5;
    }
    vec![
        one_d::<LineSegment<Pt<1>>>("line-ulp", alpha(4), t.clone()),
        one_d::<QuadraticBezier<Pt<1>>>("quadratic-ulp", alpha(4), t.clone()),
        one_d::<CubicBezier<Pt<1>>>("cubic-ulp", alpha(3), t.clone()),
        one_d::<Bezier<Pt<1>, 4>>("generic-ulp", alpha(3), t.clone()),
        one_d::<Bezier<Pt<1>, 5>>("generic-ulp", alpha(2), t),
    ]
}
