//! C07: distance of a point to a curve is sound, and accurate to the search resolution.
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;
use crate::shapes::*;
use stroke::{Bezier, CubicBezier, QuadraticBezier};

/// Bernstein coefficients of |c'(t)|^2.
fn speed2(cols: &[Vec<f64>]) -> f64 {
    let n = cols[0].len() - 1;
    if n == 0 {
        return 0.0;
    }
    let der: Vec<Vec<f64>> = cols
        .iter()
        .map(|c| bern_deriv(&c.iter().map(|x| dd(*x)).collect::<Vec<_>>(), 1).iter().map(|x| x.f()).collect())
        .collect();
    let z = vec![0.0; der.len()];
    let co = dist2_coeffs(&der, &z);
    let m = co.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    bern_range(&co, 1e-6 * m).1 + 1e-6 * m
}

fn check<const DIM: usize, C: Curve<DIM>>(c: &[[R; DIM]], qs: &[[R; DIM]], ctx: &mut Ctx) -> Res {
    let curve = C::build(c);
    ctx.state();
    let cols = axes(c);
    let m = speed2(&cols).max(0.0).sqrt();
    for q in qs {
        let qf = to64(*q);
        let s2 = scale_of(c).max(scale_of(&[*q])).powi(2) * DIM as f64 + 1e-300;
        let tol2 = 4.0 * REL * s2;
        let got = curve.dist(*q) as f64;
        ctx.trans(1);
        ctx.outcome(got.to_bits());
        let co = dist2_coeffs(&cols, &qf);
        let (true2, _) = bern_argmin(&co, 0.0, 1.0, 1e-14 * s2);
        let true2 = true2.max(0.0);
        need!(
            got >= 0.0 && got * got >= true2 - tol2,
            "{} {c:?}, point {q:?}: reported distance {got:?} is below the true minimum {:?}",
            C::kind(),
            true2.sqrt()
        );
        let cs = coarse(&cols, &qf);
        let best = cs.iter().cloned().fold(f64::INFINITY, f64::min);
        need!(
            got * got <= best + tol2,
            "{} {c:?}, point {q:?}: reported distance {got:?} exceeds the distance {:?} of the curve point at t = {}/64",
            C::kind(),
            best.sqrt(),
            cs.iter().position(|x| *x == best).unwrap()
        );
        // a nearest point within half a coarse step of every sample that may count as the best one
        let h = 1.0 / 128.0;
        let mut near_all = true;
        for (i, d) in cs.iter().enumerate() {
            if *d <= best + 4.0 * tol2 {
                let t = i as f64 / 64.0;
                let (w, _) = bern_argmin(&co, (t - h).max(0.0), (t + h).min(1.0), 1e-14 * s2);
                near_all &= w <= true2 + 1e-13 * s2;
            }
        }
        if near_all {
            let lim = true2.sqrt() + m / 4096.0 * 1.000001;
            need!(
                got * got <= lim * lim + tol2,
                "{} {c:?}, point {q:?}: reported distance {got:?}, true distance {:?} (next to the best coarse sample), resolution {:?}",
                C::kind(),
                true2.sqrt(),
                m / 4096.0
            );
            ctx.class("minimum next to the best sample");
            if true2 < tol2 {
                ctx.class("point on the curve");
            }
        } else {
            ctx.class("minimum elsewhere");
        }
    }
    ctx.trace();
    ctx.sample(|| format!("{} {c:?}, {} query points", C::kind(), qs.len()));
    Ok(())
}

/// Query points: a lattice, far points, and points on the curve between the coarse samples.
fn queries<const DIM: usize>(c: &[[R; DIM]], grid: &[[R; DIM]], s: R) -> Vec<[R; DIM]> {
    let mut v: Vec<[R; DIM]> = grid.iter().map(|q| q.map(|x| x * s)).collect();
    let cols = axes(c);
    let n = c.len() - 1;
    for t in [0.003, 0.0079, 0.37, 0.5 + 1.0 / 128.0 - 0.0004, 0.61, 0.7305, 0.9915, 0.997, 1.0, 0.0] {
        let w = bern_weights(n, dd(t));
        let mut p = [0.0 as R; DIM];
        let mut o = [0.0 as R; DIM];
        for d in 0..DIM {
            p[d] = dot(&w, &cols[d]).f() as R;
            // and a little off the curve
            o[d] = p[d] + (if d % 2 == 0 { 0.013 } else { -0.021 }) * s;
        }
        v.push(p);
        v.push(o);
    }
    // the control points themselves
    v.extend_from_slice(c);
    v
}

fn grid<const DIM: usize>(vals: &[f64], all: bool) -> Vec<[R; DIM]> {
    let n = vals.len();
    if all {
        (0..ipow(n, DIM))
            .map(|i| {
                let mut dg = Digits(i);
                let mut p = [0.0 as R; DIM];
                for x in p.iter_mut() {
                    *x = vals[dg.take(n)] as R;
                }
                p
            })
            .collect()
    } else {
        (0..n)
            .map(|i| {
                let mut p = [0.0 as R; DIM];
                for (d, x) in p.iter_mut().enumerate() {
                    *x = vals[(i + 2 * d) % n] as R;
                }
                p
            })
            .collect()
    }
}

fn sp<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, al: Vec<R>, full: bool, qvals: &[f64]) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full), qvals)
}
fn sps<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, sp: Space, qvals: &[f64]) -> Suite {
    let n = C::N;
    let g = grid::<DIM>(qvals, DIM <= 2);
    suite(
        format!("{name}-N{n}-{DIM}d-q{}-{}", g.len(), sp.tag()),
        format!(
            "{} x {} lattice query points over {qvals:?}, 20 points on and beside the curve, and its control points",
            sp.what(n, DIM),
            g.len()
        ),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, s) = sp.get::<DIM>(i, n);
            let mut q = queries(&c, &g, s);
            if let Mode::Points(_) = sp.mode {
                q.extend((0..TEMPLATES).map(template::<DIM>));
            }
            check::<DIM, C>(&c, &q, ctx)
        },
    )
    .must(&["minimum next to the best sample", "point on the curve"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let qv = [0.3, -0.8, 1.6, 25.0, 0.0];
    let qw = [0.3, -0.8, 1.6, -40.0, 0.0, 1.0, 0.75, 2.5];
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    type G<const D: usize, const N: usize> = Bezier<Pt<D>, N>;
    let mut v = vec![
        sp::<1, Q<1>>("quadratic", a(3, 8, 13), true, &qw),
        sp::<2, Q<2>>("quadratic", a(2, 3, 4), true, &qv),
        sp::<1, C<1>>("cubic", a(2, 5, 9), true, &qw),
        sp::<2, C<2>>("cubic", a(2, 2, 3), true, &qv),
        sp::<1, G<1, 1>>("generic", a(4, 9, 13), true, &qw),
        sp::<1, G<1, 2>>("generic", a(3, 9, 13), true, &qw),
        sp::<2, G<2, 2>>("generic", a(2, 3, 5), true, &qv),
        sp::<1, G<1, 3>>("generic", a(2, 6, 10), true, &qw),
        sp::<2, G<2, 3>>("generic", a(2, 2, 3), true, &qv),
        sp::<1, G<1, 4>>("generic", a(2, 4, 6), true, &qw),
        sp::<2, G<2, 4>>("generic", a(2, 2, 2), true, &qv),
        sp::<1, G<1, 5>>("generic", a(2, 3, 4), true, &qw),
        sp::<2, G<2, 5>>("generic", a(2, 3, 4), false, &qv),
        sp::<2, G<2, 6>>("generic", a(2, 2, 3), false, &qv),
        sp::<2, G<2, 8>>("generic", a(2, 2, 2), false, &qv),
        sp::<2, Q<2>>("quadratic", a(2, 9, 14), false, &qv),
        sp::<2, C<2>>("cubic", a(2, 6, 9), false, &qv),
    ];
    macro_rules! dims {
        ($($d:literal)*) => { $(
            v.push(sp::<$d, Q<$d>>("quadratic", a(2, 7, 12), false, &qw));
            v.push(sp::<$d, C<$d>>("cubic", a(2, 4, 7), false, &qw));
            v.push(sp::<$d, G<$d, 3>>("generic", a(2, 5, 8), false, &qw));
            v.push(sp::<$d, G<$d, 5>>("generic", a(2, 2, 4), false, &qw));
        )* };
    }
    dims!(3 4 6);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(sps::<1, Q<1>>("quadratic", s(2, 4, 6), &qv));
    v.push(sps::<2, Q<2>>("quadratic", s(2, 2, 3), &qv));
    v.push(sps::<1, C<1>>("cubic", s(2, 3, 4), &qv));
    v.push(sps::<2, C<2>>("cubic", s(2, 2, 2), &[0.3, -0.8, 0.0]));
    v.push(sps::<1, G<1, 2>>("generic", s(2, 4, 6), &qv));
    v.push(sps::<1, G<1, 4>>("generic", s(2, 2, 3), &qv));
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, Q<$d>>("quadratic", Space::points(npoints(tier, 5)), &[0.3]));
            v.push(sps::<$d, C<$d>>("cubic", Space::points(npoints(tier, 6)), &[0.3]));
            v.push(sps::<$d, G<$d, 2>>("generic", Space::points(npoints(tier, 4)), &[0.3]));
            v.push(sps::<$d, G<$d, 3>>("generic", Space::points(npoints(tier, 5)), &[0.3]));
            v.push(sps::<$d, G<$d, 4>>("generic", Space::points(npoints(tier, 6)), &[0.3]));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9);
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(sps::<2, G<2, $n>>("generic-long", Space::patterns(), &[0.3])); )* };
    }
    longs!(6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 34 40 48 64);
    v.push(sp::<12, C<12>>("cubic", a(2, 3, 4), false, &qw));
    v.push(sp::<1, G<1, 12>>("generic", a(2, 2, 2), false, &[0.3]));
    v
}
