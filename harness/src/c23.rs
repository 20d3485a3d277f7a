//! C23: B-spline control is local.
use crate::bsp::*;
use crate::core::*;
use crate::model::span;
use crate::need;

fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    check_at(knots, c, d, 3, &pattern_s(c, 3, (c + d) % 4, scale), scale, ctx)
}
fn check_p(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    check_at(knots, c, d, dim, ctrl, 1.0, ctx)
}
fn check_at(knots: &[R], c: usize, d: usize, dim: usize, pat: &[Vec<R>], scale: f64, ctx: &mut Ctx) -> Res {
    let s = make(c, d, dim, knots, pat).unwrap();
    let ts = inside(knots, c, d, &[0.5, 0.13, 0.86]);
    let eval = |s: &dyn Sp, t: R| -> Result<[R; 10], Violation> {
        let mut o = [0.0 as R; 10];
        match s.eval(t, &mut o) {
            Ok(()) => Ok(o),
            Err(e) => Err(Violation(format!("knots {knots:?} (C={c}, D={d}): eval({t:?}) fails with {e:?}"))),
        }
    };
    let degenerate = knots[d] == knots[c];
    let base: Vec<[R; 10]> = ts.iter().map(|t| eval(&*s, *t)).collect::<Result<_, _>>()?;
    ctx.state();
    ctx.trans(ts.len() as u64);
    // control points
    let m = pat.iter().flatten().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
    for i in 0..c {
        for (big, first) in [(1usize.min(dim - 1), if dim > 1 { 1.0f64 } else { -2.0 }), (0, -300.7)] {
            let delta: Vec<f64> = (0..dim)
                .map(|k| if k == 0 { first } else if big == 1 { [0.25, -2.0, 0.0, 1.0][k % 4] } else { [0.0, 0.0, 1e-3, -1.0][k % 4] })
                .map(|x| (x * scale) as R as f64)
                .collect();
            let mut p = pat.to_vec();
            for k in 0..dim {
                p[i][k] += delta[k] as R;
            }
            let q = make(c, d, dim, knots, &p).unwrap();
            ctx.state();
            for (t, b) in ts.iter().zip(&base) {
                let o = eval(&*q, *t)?;
                ctx.trans(1);
                let outside = *t < knots[i] || *t > knots[i + d + 1];
                if outside {
                    ctx.class("outside the support");
                    need!(
                        (0..dim).all(|k| o[k] == b[k]),
                        "knots {knots:?} (C={c}, D={d}): moving control point {i} by {delta:?} changes eval({t:?}) from {:?} to {:?}, outside of [{:?}, {:?}]",
                        &b[..dim], &o[..dim], knots[i], knots[i + d + 1]
                    );
                } else if !degenerate {
                    ctx.class("inside the support");
                    // one weight for all axes
                    let w = (o[big] as f64 - b[big] as f64) / delta[big];
                    let tol = 8.0 * REL * (1.0 + m / delta[big].abs());
                    need!(w >= -tol && w <= 1.0 + tol, "knots {knots:?} (C={c}, D={d}): control point {i} has weight {w:?} at t={t:?}");
                    for k in 0..dim {
                        let ch = o[k] as f64 - b[k] as f64;
                        need!(
                            (ch - w * delta[k]).abs() <= 8.0 * REL * (m + delta[k].abs() + m * delta[k].abs() / delta[big].abs()),
                            "knots {knots:?} (C={c}, D={d}): moving control point {i} by {delta:?} changes axis {k} of eval({t:?}) by {ch:?} and axis {big} by {:?}",
                            w * delta[big]
                        );
                    }
                    ctx.outcome(w.to_bits());
                }
            }
        }
    }
    // knots
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let n = knots.len();
    for j in 0..n {
        let unit = (knots[n - 1] - knots[0]).max(1.0 as R);
        let lo = if j > 0 { knots[j - 1] } else { knots[0] - unit };
        let hi = if j + 1 < n { knots[j + 1] } else { knots[n - 1] + unit };
        for to in [lo, hi, (lo + knots[j]) / 2.0, (hi + knots[j]) / 2.0] {
            if to == knots[j] || to < lo || to > hi {
                continue;
            }
            let mut k2 = knots.to_vec();
            k2[j] = to;
            let q = match make(c, d, dim, &k2, pat) {
                Ok(q) => q,
                Err(e) => return Err(Violation(format!("knots {k2:?} (C={c}, D={d}) rejected with {e:?}"))),
            };
            ctx.state();
            let k2f: Vec<f64> = k2.iter().map(|x| *x as f64).collect();
            let (a, b) = (k2[d], k2[c]);
            for (t, was) in ts.iter().zip(&base) {
                if *t < a || *t > b || degenerate || a == b {
                    continue;
                }
                let (k, k2) = match (span(&kf, c, d, *t as f64), span(&k2f, c, d, *t as f64)) {
                    (Some(k), Some(k2)) => (k, k2),
                    _ => continue,
                };
                let near = (j as i64) >= k as i64 - d as i64 + 1 && j <= k + d || j == k || j == k + 1;
                if near || k != k2 {
                    ctx.class("knot with influence");
                    continue;
                }
                ctx.class("knot without influence");
                let o = eval(&*q, *t)?;
                ctx.trans(1);
                for x in 0..dim {
                    need!(
                        (o[x] as f64 - was[x] as f64).abs() <= 2.0 * REL * m,
                        "knots {knots:?} (C={c}, D={d}): moving knot {j} to {to:?} changes eval({t:?}) from {:?} to {:?}, which lies in span {k}",
                        &was[..dim], &o[..dim]
                    );
                }
            }
        }
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}: every control point and every knot moved"));
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("local", tier, [100, 60_000, 1_000_000], check);
    v.extend(ctrl_suites("local", tier, [150, 6_000, 60_000], check_p));
    for s in v.iter_mut() {
        if s.name == "local-C6-D2" || s.name == "local-C6-D3" {
            s.must = vec!["outside the support", "inside the support", "knot with influence", "knot without influence"];
        }
    }
    v
}
