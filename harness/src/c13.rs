//! C13: the derivative spline is the derivative, repeatedly, on the same domain.
use crate::bsp::*;
use crate::core::*;
use crate::model::*;
use crate::need;

fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    let starts = vec![identity(c, 0), identity(c, (c - 1) / 8), pattern_s(c, 2, 0, scale), pattern_s(c, 1, 3, scale)];
    check_starts(knots, c, d, starts, ctx)
}
fn check_p(knots: &[R], c: usize, d: usize, _dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    check_starts(knots, c, d, vec![ctrl.to_vec()], ctx)
}
fn check_starts(knots: &[R], c: usize, d: usize, starts: Vec<Vec<Vec<R>>>, ctx: &mut Ctx) -> Res {
    if d == 0 {
        return Ok(());
    }
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let degenerate = knots[d] == knots[c];
    ctx.class(classify(knots, c, d));
    if repeated_inside(knots, c, d) {
        ctx.class("repeated interior knot");
    }
    let ts = inside(knots, c, d, &[0.5, 0.2, 0.85]);
    let mut out = [0.0 as R; 10];
    for ctrl in &starts {
        let dim = &ctrl[0].len();
        let base = make(c, d, *dim, knots, ctrl).unwrap();
        let mut s = base.copy();
        // bounds on the rounding of the new control points
        let bounds = derivative_bounds(&kf, d, &mags(ctrl));
        // every derivative, from the original knots
        let mut exact: Vec<Vec<f64>> = (0..*dim).map(|k| ctrl.iter().map(|p| p[k] as f64).collect()).collect();
        let _ = &mut exact;
        for r in 1..=d {
            s = match s.derivative() {
                Some(x) => x,
                None => break,
            };
            ctx.state();
            ctx.trans(1);
            let (a, b) = s.domain();
            need!(
                a == knots[d] && b == knots[c],
                "knots {knots:?} (C={c}, D={d}): derivative {r} has domain ({a:?}, {b:?}) instead of ({:?}, {:?})",
                knots[d], knots[c]
            );
            let cp = s.ctrl();
            need!(
                cp.iter().flatten().all(|x| x.is_finite()),
                "knots {knots:?} (C={c}, D={d}): derivative {r} has control points {cp:?}"
            );
            if degenerate {
                continue;
            }
            for &t in &ts {
                let w = match basis(&kf, c, d, t as f64, r) {
                    Some(w) => w,
                    None => continue,
                };
                if let Err(e) = s.eval(t, &mut out) {
                    return Err(Violation(format!("knots {knots:?} (C={c}, D={d}): derivative {r} at {t:?} fails with {e:?}")));
                }
                ctx.trans(1);
                let q = bound_at(&bounds, &kf, c, d, r, t as f64);
                for k in 0..*dim {
                    let want = dot(&w, &exact[k]);
                    need!(
                        near(out[k], want, REL * q),
                        "knots {knots:?} (C={c}, D={d}), control points {ctrl:?}: derivative {r} at {t:?} axis {k} is {:?} instead of {:?}",
                        out[k], want.f()
                    );
                }
                ctx.outcome((out[0] as f64).to_bits());
            }
        }
        // taking derivatives does not disturb the original
        need!(base.ctrl() == *ctrl && base.knots() == knots, "knots {knots:?}: derivative changed the spline");
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}"));
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("derivative", tier, [600, 20_000, 500_000], check);
    v.extend(ctrl_suites("derivative", tier, [500, 10_000, 200_000], check_p));
    v.retain(|s| !s.name.ends_with("-D0") && !s.name.contains("-D0-"));
    for s in v.iter_mut() {
        if s.name == "derivative-C5-D2" {
            s.must = vec!["clamped", "unclamped", "clamped at the start", "clamped at the end", "repeated interior knot", "degenerate domain"];
        }
    }
    v
}
