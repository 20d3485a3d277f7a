//! C11: the domain is [knots[D], knots[C]] and evaluation succeeds exactly on it.
use crate::bsp::*;
use crate::core::*;
use crate::need;

pub fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    check_p(knots, c, d, 1, &pattern_s(c, 1, 0, scale), ctx)
}
pub fn check_p(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    let s = match make(c, d, dim, knots, ctrl) {
        Ok(s) => s,
        Err(e) => return Err(Violation(format!("valid knots {knots:?} (C={c}, D={d}) refused: {e:?}"))),
    };
    ctx.state();
    let (a, b) = (knots[d], knots[c]);
    let (ga, gb) = s.domain();
    ctx.trans(1);
    need!(ga == a && gb == b, "knots {knots:?} (C={c}, D={d}): knot_domain() is ({ga:?}, {gb:?}) instead of ({a:?}, {b:?})");
    ctx.class(classify(knots, c, d));
    if repeated_inside(knots, c, d) {
        ctx.class("repeated interior knot");
    }
    let mut ts: Vec<R> = vec![
        R::NAN, -R::NAN, R::INFINITY, -R::INFINITY, R::MAX, R::MIN, 0.0, -0.0, R::MIN_POSITIVE, -R::MIN_POSITIVE,
        a - 1.0, b + 1.0, a - 1e-3, b + 1e-3, (a + b) / 2.0,
    ];
    for w in knots {
        ts.extend([*w, next_up(*w), next_down(*w)]);
    }
    for w in knots.windows(2) {
        if w[0] < w[1] {
            for f in [0.5, 0.01, 0.99, 1.0 / 3.0] {
                ts.push(w[0] + (w[1] - w[0]) * f as R);
            }
        }
    }
    let mut out = [0.0 as R; 10];
    for t in ts {
        let r = s.eval(t, &mut out);
        ctx.trans(1);
        if t >= a && t <= b {
            need!(
                r.is_ok(),
                "knots {knots:?} (C={c}, D={d}): eval({t:?}) is {r:?} inside of the domain [{a:?}, {b:?}]"
            );
            need!(out.iter().all(|x| x.is_finite()), "knots {knots:?} (C={c}, D={d}): eval({t:?}) yields {out:?}");
            ctx.class("inside");
            ctx.outcome((out[0] as f64).to_bits());
        } else {
            need!(
                r == Err(BSplineError::KnotDomainViolation),
                "knots {knots:?} (C={c}, D={d}): eval({t:?}) is {r:?} outside of the domain [{a:?}, {b:?}]"
            );
            ctx.class(if t.is_nan() { "NaN" } else { "outside" });
        }
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}"));
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("domain", tier, [3000, 200_000, 3_000_000], check);
    v[0].must = vec!["inside", "outside", "NaN", "degenerate domain", "clamped"];
    for s in v.iter_mut() {
        if s.name == "domain-C5-D2" || s.name == "domain-C5-D3" {
            s.must = vec!["clamped", "unclamped", "clamped at the start", "clamped at the end", "degenerate domain", "repeated interior knot"];
        }
    }
    v.extend(ctrl_suites("domain", tier, [1400, 20_000, 400_000], check_p));
    // knots next to each other: gaps of a few ulps and below the machine epsilon
    for (c, d) in [(4usize, 1usize), (4, 2), (5, 3), (5, 0)] {
        let gaps: Vec<f64> = vec![0.0, 1.0, EPS, 3.0 * EPS];
        let sp = KnotSpace { c, d, gaps, frames: vec![(1.0, 1.0), (0.0, 1.0), (0.0, EPS), (-1.0, 1.0)] };
        if sp.n() <= tier.pick(20_000, 500_000, 10_000_000) {
            v.push(suite(format!("domain-ulp-C{c}-D{d}"), sp.text(), sp.n(), move |i, ctx| check(&sp.word(i), c, d, 1.0, ctx)));
        }
    }
    v
}
