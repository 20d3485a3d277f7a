//! C12: evaluation is the Cox-de Boor basis expansion.
use crate::bsp::*;
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;

fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    let pats = [(1usize, 0usize), (2, 1), (3, 3)].iter().map(|(dim, w)| pattern_s(c, *dim, *w, scale)).collect();
    check_pats(knots, c, d, pats, true, ctx)
}
fn check_p(knots: &[R], c: usize, d: usize, _dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    check_pats(knots, c, d, vec![ctrl.to_vec()], false, ctx)
}
fn check_pats(knots: &[R], c: usize, d: usize, pats: Vec<Vec<Vec<R>>>, units: bool, ctx: &mut Ctx) -> Res {
    if knots[d] == knots[c] {
        ctx.class("degenerate domain (no value defined)");
        return Ok(());
    }
    ctx.class(classify(knots, c, d));
    if repeated_inside(knots, c, d) {
        ctx.class("repeated interior knot");
    }
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let blocks = if units { (c + 7) / 8 } else { 0 };
    let unit: Vec<Box<dyn Sp>> = (0..blocks).map(|b| make(c, d, 8, knots, &identity(c, b)).unwrap()).collect();
    let pats: Vec<(Vec<Vec<R>>, Box<dyn Sp>)> = pats
        .into_iter()
        .map(|p| {
            let s = make(c, d, p[0].len(), knots, &p).unwrap();
            (p, s)
        })
        .collect();
    ctx.state();
    let mut out = [0.0 as R; 10];
    for t in inside(knots, c, d, &[0.5, 0.2, 0.85]) {
        let w = match basis(&kf, c, d, t as f64, 0) {
            Some(w) => w,
            None => continue,
        };
        // the weights themselves: unit control points
        for (b, s) in unit.iter().enumerate() {
            if let Err(e) = s.eval(t, &mut out) {
                return Err(Violation(format!("knots {knots:?} (C={c}, D={d}): eval({t:?}) fails with {e:?}")));
            }
            ctx.trans(1);
            for k in 0..8 {
                let i = b * 8 + k;
                let want = if i < c { w[i] } else { ZERO };
                need!(
                    near(out[k], want, 4.0 * REL),
                    "knots {knots:?} (C={c}, D={d}): weight of control point {i} at t={t:?} is {:?}, basis function is {:?}",
                    out[k], want.f()
                );
                need!(out[k] as f64 >= -4.0 * REL && out[k] as f64 <= 1.0 + 4.0 * REL, "weight {:?} outside of [0,1]", out[k]);
            }
            ctx.outcome((out[0] as f64).to_bits());
        }
        for (p, s) in &pats {
            let dim = s.dim();
            if let Err(e) = s.eval(t, &mut out) {
                return Err(Violation(format!("knots {knots:?} (C={c}, D={d}): eval({t:?}) fails with {e:?}")));
            }
            ctx.trans(1);
            for k in 0..dim {
                let col: Vec<f64> = p.iter().map(|x| x[k] as f64).collect();
                let m = col.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                let want = dot(&w, &col);
                need!(
                    near(out[k], want, 4.0 * REL * m),
                    "knots {knots:?} (C={c}, D={d}) control points {p:?}: eval({t:?}) axis {k} is {:?} instead of {:?}",
                    out[k], want.f()
                );
            }
        }
    }
    // no interior knots, both ends clamped: a Bézier curve
    if c == d + 1 && knots[0] == knots[d] && knots[c] == knots[c + d] {
        ctx.class("Bézier case");
    }
    // clamped ends interpolate
    let (p, s) = &pats[0];
    let m = p.iter().fold(0.0f64, |a, x| a.max((x[0] as f64).abs()));
    if knots[0] == knots[d] {
        s.eval(knots[d], &mut out).ok();
        // the control point of the first non-empty span's left end
        let k = span(&kf, c, d, kf[d]).unwrap();
        if k == d {
            need!((out[0] as f64 - p[0][0] as f64).abs() <= 4.0 * REL * m, "knots {knots:?} (C={c}, D={d}): clamped start is {:?} instead of the first control point {:?}", out[0], p[0][0]);
        }
    }
    if knots[c] == knots[c + d] {
        s.eval(knots[c], &mut out).ok();
        let k = span(&kf, c, d, kf[c]).unwrap();
        if k == c - 1 {
            need!((out[0] as f64 - p[c - 1][0] as f64).abs() <= 4.0 * REL * m, "knots {knots:?} (C={c}, D={d}): clamped end is {:?} instead of the last control point {:?}", out[0], p[c - 1][0]);
        }
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}"));
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("value", tier, [1500, 20_000, 600_000], check);
    for s in v.iter_mut() {
        if s.name == "value-C5-D2" {
            s.must = vec!["clamped", "unclamped", "clamped at the start", "clamped at the end", "repeated interior knot"];
        }
        if s.name == "value-C4-D3" || s.name == "value-C3-D2" {
            s.must = vec!["Bézier case"];
        }
    }
    v.extend(ctrl_suites("value", tier, [1400, 30_000, 400_000], check_p));
    // very fine and very coarse knot units
    for (c, d) in [(4usize, 1usize), (4, 2), (5, 3)] {
        let u = if EPS < 1e-10 { 1e-20 } else { 1e-12 };
        let sp = KnotSpace { c, d, gaps: vec![0.0, 1.0, 0.3], frames: vec![(0.0, u), (0.0, 1e9), (0.0, 1e-7)] };
        v.push(suite(format!("value-units-C{c}-D{d}"), sp.text(), sp.n(), move |i, ctx| check(&sp.word(i), c, d, 1.0, ctx)));
    }
    v
}
