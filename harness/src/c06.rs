//! C06: arclen(n) is the length of the polyline through the n+1 uniformly sampled curve points.
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;
use crate::shapes::*;
use std::sync::Arc;
use stroke::{Bezier, CubicBezier, QuadraticBezier};

type Grids = Arc<Vec<(usize, Vec<Vec<DD>>)>>;
fn grids(deg: usize, ns: &[usize]) -> Grids {
    Arc::new(
        ns.iter()
            .map(|&n| (n, (0..=n).map(|i| bern_weights(deg, dd(i as f64) / dd(n as f64))).collect()))
            .collect(),
    )
}

fn dist<const DIM: usize>(a: &[R; DIM], b: &[R; DIM]) -> f64 {
    (0..DIM).map(|d| (a[d] as f64 - b[d] as f64).powi(2)).sum::<f64>().sqrt()
}

fn check<const DIM: usize, C: Curve<DIM>>(c: &[[R; DIM]], g: &Grids, ctx: &mut Ctx) -> Res {
    let curve = C::build(c);
    ctx.state();
    let cols = axes(c);
    let s = scale_of(c);
    let chord = dist(&c[0], &c[c.len() - 1]);
    let polygon: f64 = c.windows(2).map(|w| dist(&w[0], &w[1])).sum();
    let mut seen: Vec<(usize, f64)> = vec![];
    for (n, g) in g.iter() {
        let got = curve.arclen(*n).unwrap() as f64;
        let mut want = 0.0f64;
        let mut prev: Vec<DD> = cols.iter().map(|c| dot(&g[0], c)).collect();
        for w in &g[1..] {
            let p: Vec<DD> = cols.iter().map(|c| dot(w, c)).collect();
            let mut q = ZERO;
            for (a, b) in p.iter().zip(&prev) {
                let e = *a - *b;
                q = q + e * e;
            }
            want += q.f().max(0.0).sqrt();
            prev = p;
        }
        let tol = REL * s * (1.0 + *n as f64 / 8.0);
        need!(
            (got - want).abs() <= tol,
            "{} {c:?}: arclen({n}) is {got:?}, the polyline through {} samples measures {want:?}",
            C::kind(),
            n + 1
        );
        need!(got >= chord - tol, "{} {c:?}: arclen({n}) = {got:?} is below the end-to-end distance {chord:?}", C::kind());
        need!(got <= polygon + tol, "{} {c:?}: arclen({n}) = {got:?} exceeds the control polygon {polygon:?}", C::kind());
        for (m, l) in &seen {
            if m * 2 == *n {
                need!(got >= l - tol, "{} {c:?}: arclen({n}) = {got:?} is below arclen({m}) = {l:?}", C::kind());
            }
        }
        seen.push((*n, got));
        ctx.trans(1);
        ctx.outcome(got.to_bits());
    }
    // straight and traversed at uniform speed: every n is exact
    let straight = c.windows(3).all(|w| (0..DIM).all(|d| (w[2][d] as f64 - 2.0 * w[1][d] as f64 + w[0][d] as f64) == 0.0));
    if straight {
        for (n, l) in &seen {
            need!((l - chord).abs() <= REL * s * (1.0 + *n as f64 / 8.0), "{} {c:?} is straight and uniform, but arclen({n}) = {l:?} and the chord is {chord:?}", C::kind());
        }
        ctx.class("straight");
    } else {
        ctx.class("curved");
    }
    ctx.trace();
    ctx.sample(|| format!("{} {c:?}", C::kind()));
    Ok(())
}

/// Every step count on a few curves, weights computed per sample.
fn steps<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, curves: usize, ns: Vec<usize>) -> Suite {
    let n = C::N;
    let last = *ns.iter().max().unwrap();
    suite(
        format!("{name}-N{n}-{DIM}d-steps{}", ns.len()),
        format!("{curves} curves in {DIM} dimensions x {} step counts up to {last}", ns.len()),
        (curves * ns.len()) as u64,
        move |i, ctx| {
            let k = i as usize % curves;
            let m = ns[i as usize / curves];
            let c: Vec<[R; DIM]> = (0..n)
                .map(|j| {
                    let mut p = template::<DIM>([1, 4, 5, 7][(j + k) % 4]);
                    p[0] += (j * j) as R * 0.3 - (k * j) as R;
                    p[DIM - 1] -= ((j * 7 + k) % 5) as R;
                    p
                })
                .collect();
            let got = C::build(&c).arclen(m).unwrap() as f64;
            let cols = axes(&c);
            let s = scale_of(&c);
            let at = |j: usize| -> Vec<DD> {
                let w = bern_weights(n - 1, dd(j as f64) / dd(m as f64));
                cols.iter().map(|c| dot(&w, c)).collect()
            };
            let mut prev = at(0);
            let mut want = ZERO;
            for j in 1..=m {
                let p = at(j);
                let mut q = ZERO;
                for (a, b) in p.iter().zip(&prev) {
                    let e = *a - *b;
                    q = q + e * e;
                }
                want = want + dd(q.f().max(0.0).sqrt());
                prev = p;
            }
            let want = want.f();
            let tol = REL * s * (1.0 + m as f64 / 8.0);
            ctx.state();
            ctx.trans(1);
            ctx.outcome(got.to_bits());
            need!((got - want).abs() <= tol, "{} {c:?}: arclen({m}) is {got:?}, the polyline through {} samples measures {want:?}", C::kind(), m + 1);
            ctx.trace();
            Ok(())
        },
    )
}

fn sp<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, al: Vec<R>, full: bool, ns: &[usize]) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full), ns)
}
fn sps<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, sp: Space, ns: &[usize]) -> Suite {
    let n = C::N;
    let g = grids(n - 1, ns);
    suite(
        format!("{name}-N{n}-{DIM}d-n{}-{}", ns.len(), sp.tag()),
        format!("{} x step counts {ns:?}", sp.what(n, DIM)),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            check::<DIM, C>(&c, &g, ctx)
        },
    )
    .must(&["straight", "curved"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let few = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32, 64];
    let mut dense: Vec<usize> = (1..=tier.pick(24, 130, 300)).collect();
    dense.extend([255, 256, 257, 300, 500, 511, 512, 513]);
    let long: Vec<usize> = tier.pick(
        vec![1000, 1001],
        vec![999, 1000, 1001, 1024, 1025, 2000, 2048, 4000, 4095, 4096, 4097, 5000, 10000],
        vec![999, 1000, 1001, 1024, 1025, 2000, 2048, 4000, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072],
    );
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    type G<const D: usize, const N: usize> = Bezier<Pt<D>, N>;
    let mut v = vec![
        sp::<1, Q<1>>("quadratic", a(4, 12, 16), true, &few),
        sp::<2, Q<2>>("quadratic", a(2, 4, 6), true, &few),
        sp::<1, C<1>>("cubic", a(3, 8, 12), true, &few),
        sp::<2, C<2>>("cubic", a(2, 3, 4), true, &few),
        sp::<1, G<1, 2>>("generic", a(4, 10, 16), true, &few),
        sp::<2, G<2, 2>>("generic", a(2, 4, 7), true, &few),
        sp::<1, G<1, 3>>("generic", a(3, 8, 12), true, &few),
        sp::<2, G<2, 3>>("generic", a(2, 3, 4), true, &few),
        sp::<1, G<1, 4>>("generic", a(2, 5, 8), true, &few),
        sp::<2, G<2, 4>>("generic", a(2, 2, 3), true, &few),
        sp::<1, G<1, 5>>("generic", a(2, 4, 5), true, &few),
        sp::<1, G<1, 6>>("generic", a(2, 3, 4), true, &few),
        sp::<1, G<1, 8>>("generic", a(2, 2, 3), true, &few),
        sp::<2, Q<2>>("quadratic-dense", a(2, 4, 6), false, &dense),
        sp::<2, C<2>>("cubic-dense", a(2, 3, 4), false, &dense),
        sp::<2, G<2, 3>>("generic-dense", a(2, 3, 4), false, &dense),
        sp::<2, G<2, 4>>("generic-dense", a(2, 3, 4), false, &dense),
        sp::<2, G<2, 6>>("generic-dense", a(2, 2, 3), false, &dense),
        sp::<2, Q<2>>("quadratic-long", a(2, 3, 4), false, &long),
        sp::<2, C<2>>("cubic-long", a(2, 3, 3), false, &long),
        sp::<2, G<2, 4>>("generic-long", a(2, 2, 3), false, &long),
    ];
    macro_rules! dims {
        ($($d:literal)*) => { $(
            v.push(sp::<$d, Q<$d>>("quadratic", a(2, 8, 12), false, &few));
            v.push(sp::<$d, C<$d>>("cubic", a(2, 5, 8), false, &few));
            v.push(sp::<$d, G<$d, 4>>("generic", a(2, 4, 6), false, &few));
            v.push(sp::<$d, G<$d, 5>>("generic", a(2, 3, 4), false, &few));
        )* };
    }
    dims!(3 4 6);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(sps::<1, Q<1>>("quadratic", s(2, 4, 6), &few));
    v.push(sps::<2, Q<2>>("quadratic", s(2, 2, 3), &few));
    v.push(sps::<1, C<1>>("cubic", s(2, 3, 4), &few));
    v.push(sps::<2, C<2>>("cubic", s(2, 2, 2), &few));
    v.push(sps::<1, G<1, 2>>("generic", s(2, 5, 6), &few));
    v.push(sps::<1, G<1, 5>>("generic", s(2, 2, 3), &few));
    v.push(sp::<12, Q<12>>("quadratic", a(2, 5, 8), false, &few));
    v.push(sp::<12, C<12>>("cubic", a(2, 3, 5), false, &few));
    v.push(sp::<12, G<12, 4>>("generic", a(2, 3, 4), false, &few));
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, Q<$d>>("quadratic", Space::points(npoints(tier, 4)), &few));
            v.push(sps::<$d, C<$d>>("cubic", Space::points(npoints(tier, 5)), &few));
            v.push(sps::<$d, G<$d, 2>>("generic", Space::points(npoints(tier, 3)), &few));
            v.push(sps::<$d, G<$d, 3>>("generic", Space::points(npoints(tier, 4)), &few));
            v.push(sps::<$d, G<$d, 4>>("generic", Space::points(npoints(tier, 5)), &few));
            v.push(sps::<$d, G<$d, 5>>("generic", Space::points(npoints(tier, 6)), &few));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9);
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(sps::<3, G<3, $n>>("generic-long", Space::patterns(), &few)); )* };
    }
    longs!(6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 48 64);
    let many = || step_counts(tier.pick(100, 1200, 5000), tier.pick(2000, 140_000, 2_100_000));
    v.push(steps::<2, Q<2>>("quadratic", 2, many()));
    v.push(steps::<3, C<3>>("cubic", 2, many()));
    v.push(steps::<2, G<2, 2>>("generic", 2, many()));
    v.push(steps::<1, G<1, 3>>("generic", 2, many()));
    v.push(steps::<3, G<3, 4>>("generic", 2, many()));
    v.push(steps::<2, G<2, 7>>("generic", 1, step_counts(tier.pick(50, 600, 2000), tier.pick(2000, 20_000, 140_000))));
    v.push(sp::<1, G<1, 1>>("generic", a(2, 6, 8), true, &few));
    v.push(sp::<2, G<2, 12>>("generic", a(2, 2, 2), false, &few));
    v.push(sp::<2, G<2, 16>>("generic", a(2, 2, 2), false, &[1, 2, 7]));
    v
}
