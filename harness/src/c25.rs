//! C25: B-splines are smooth, reproduce straight motion and do not depend on how their knots are parametrised.
//! Laws that relate results of the real code to each other; no basis functions are computed here.
use crate::bsp::*;
use crate::core::*;
use crate::need;

const GAUSS: [(f64, f64); 6] = [
    (0.033765242898423989, 0.085662246189585173), (0.169395306766867743, 0.180380786524069304), (0.380690406958401546, 0.233956967286345524),
    (0.619309593041598454, 0.233956967286345524), (0.830604693233132257, 0.180380786524069304), (0.966234757101576011, 0.085662246189585173),
];

fn at(s: &dyn Sp, t: R, what: &dyn Fn() -> String) -> Result<[R; 10], Violation> {
    let mut o = [0.0 as R; 10];
    match s.eval(t, &mut o) {
        Ok(()) => Ok(o),
        Err(e) => Err(Violation(format!("{}: eval({t:?}) fails with {e:?}", what()))),
    }
}
fn new(c: usize, d: usize, dim: usize, knots: &[R], ctrl: &[Vec<R>]) -> Result<Box<dyn Sp>, Violation> {
    make(c, d, dim, knots, ctrl).map_err(|e| Violation(format!("C={c} D={d} in {dim} dimensions, valid knots {knots:?}: new() fails with {e:?}")))
}
fn big(p: &[Vec<R>]) -> f64 {
    p.iter().flatten().fold(0.0, |a, x| a.max((*x as f64).abs()))
}

fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    laws(knots, c, d, 2, &pattern_s(c, 2, 0, scale), ctx)?;
    laws(knots, c, d, 1, &pattern_s(c, 1, 3, scale), ctx)?;
    motions(knots, c, d, 3, scale, ctx)
}
fn check_p(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    laws(knots, c, d, dim, ctrl, ctx)?;
    motions(knots, c, d, dim, 1.0, ctx)
}

/// The smallest positive distance over which a basis function of degree deg is spread.
fn width(knots: &[f64], deg: usize) -> f64 {
    let g = deg.max(1);
    (0..knots.len() - g).map(|i| knots[i + g] - knots[i]).filter(|x| *x > 0.0).fold(f64::INFINITY, f64::min)
}

/// Equal control points stand still; control points at the knot averages move evenly along a line.
fn motions(knots: &[R], c: usize, d: usize, dim: usize, scale: f64, ctx: &mut Ctx) -> Res {
    if knots[d] == knots[c] {
        return Ok(());
    }
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let ts = inside(knots, c, d, &[0.5, 0.2, 0.85]);
    let span = kf[c] - kf[d];
    let o: Vec<f64> = (0..dim).map(|k| scale * [1.25, -0.5, 3.0, 0.0][k % 4]).collect();
    let dir: Vec<f64> = (0..dim).map(|k| scale * [-2.0, 0.75, 0.0, 1.5][(k + dim) % 4] / span).collect();
    for moving in [false, true] {
        if moving && d == 0 {
            continue;
        }
        let ctrl: Vec<Vec<R>> = (0..c)
            .map(|i| {
                let g = if moving { kf[i + 1..=i + d].iter().map(|k| k - kf[d]).sum::<f64>() / d as f64 } else { 0.0 };
                (0..dim).map(|k| (o[k] + dir[k] * g) as R).collect()
            })
            .collect();
        let s = new(c, d, dim, knots, &ctrl)?;
        ctx.state();
        let who = || format!("knots {knots:?} (C={c}, D={d}), control points {ctrl:?} {}", if moving { "(at the knot averages, along a line)" } else { "(all equal)" });
        let m = big(&ctrl);
        // the knots themselves are rounded: relative to the widest
        let reach = kf[0].abs().max(kf[c + d].abs());
        for &t in &ts {
            let p = at(&*s, t, &who)?;
            ctx.trans(1);
            for k in 0..dim {
                let want = o[k] + if moving { dir[k] * (t as f64 - kf[d]) } else { 0.0 };
                need!((p[k] as f64 - want).abs() <= 4.0 * REL * m, "{}: eval({t:?}) axis {k} is {:?} instead of {want:?}", who(), p[k]);
            }
            ctx.outcome((p[0] as f64).to_bits());
        }
        let speed = if moving { dir.iter().map(|x| x * x).sum::<f64>().sqrt() } else { 0.0 };
        if m * m < R::MAX as f64 * 1e-6 && m * m > R::MIN_POSITIVE as f64 * 1e12 {
            for n in [1usize, 2, 7, 32] {
                let l = s.arclen(n) as f64;
                ctx.trans(1);
                let tol = (n as f64 + 1.0) * (4.0 * REL * m + 8.0 * EPS * reach * speed) * dim as f64;
                need!((l - speed * span).abs() <= tol, "{}: arclen({n}) is {l:?} instead of {:?}", who(), speed * span);
            }
        }
        // velocity, and no acceleration
        let bounds = derivative_bounds(&kf, d, &mags(&ctrl));
        let mut cur = s.copy();
        for r in 1..=d.min(3) {
            cur = match cur.derivative() {
                Some(x) => x,
                None => break,
            };
            ctx.state();
            for &t in &ts {
                let p = at(&*cur, t, &who)?;
                let q = bound_at(&bounds, &kf, c, d, r, t as f64);
                ctx.trans(1);
                for k in 0..dim {
                    let want = if moving && r == 1 { dir[k] } else { 0.0 };
                    need!((p[k] as f64 - want).abs() <= 2.0 * REL * q, "{}: derivative {r} at {t:?} axis {k} is {:?} instead of {want:?}", who(), p[k]);
                }
            }
        }
        ctx.class(if moving { "even motion" } else { "standing still" });
        ctx.trace();
    }
    Ok(())
}

fn laws(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    if knots[d] == knots[c] {
        ctx.class("degenerate domain");
        return Ok(());
    }
    ctx.class(classify(knots, c, d));
    let who = || format!("knots {knots:?} (C={c}, D={d}), control points {ctrl:?}");
    let s = new(c, d, dim, knots, ctrl)?;
    ctx.state();
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let ts = inside(knots, c, d, &[0.5, 0.13, 0.86]);
    let m = big(ctrl);
    let base: Vec<[R; 10]> = ts.iter().map(|t| at(&*s, *t, &who)).collect::<Result<_, _>>()?;
    ctx.trans(ts.len() as u64);
    let mult = |k: R| knots.iter().filter(|x| **x == k).count();
    let interior: Vec<R> = {
        let mut v: Vec<R> = knots.iter().cloned().filter(|k| *k > knots[d] && *k < knots[c]).collect();
        v.dedup();
        v
    };
    // inside the box of the control points of its span
    for (t, p) in ts.iter().zip(&base) {
        let j = (d..c).rev().find(|&j| knots[j] <= *t && knots[j] < knots[j + 1]).unwrap();
        for k in 0..dim {
            let col = ctrl[j - d..=j].iter().map(|x| x[k] as f64);
            let (lo, hi) = col.fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(x), b.max(x)));
            let e = 4.0 * REL * m;
            need!(
                p[k] as f64 >= lo - e && p[k] as f64 <= hi + e,
                "{}: eval({t:?}) axis {k} is {:?}, but the control points of its span are between {lo:?} and {hi:?}", who(), p[k]
            );
        }
        ctx.outcome((p[0] as f64).to_bits());
    }
    // smooth at interior knots
    let bounds = derivative_bounds(&kf, d, &mags(ctrl));
    let bound = |r: usize, t: R| bound_at(&bounds, &kf, c, d, r, t as f64);
    let mut cur = s.copy();
    for r in 0..=d {
        if r > 0 {
            cur = match cur.derivative() {
                Some(x) => x,
                None => break,
            };
            ctx.state();
        }
        if r < d {
            for &k in &interior {
                if mult(k) + r <= d {
                    let below = next_down(k);
                    if below <= knots[d] {
                        continue;
                    }
                    let (a, b) = (at(&*cur, below, &who)?, at(&*cur, k, &who)?);
                    ctx.trans(2);
                    let q = bound(r, below).max(bound(r, k));
                    let next = bound(r + 1, below).max(bound(r + 1, k));
                    for x in 0..dim {
                        need!(
                            (a[x] as f64 - b[x] as f64).abs() <= 2.0 * REL * q + 2.0 * next * (k as f64 - below as f64),
                            "{}: derivative {r} jumps at the knot {k:?} of multiplicity {}: axis {x} from {:?} to {:?}", who(), mult(k), a[x], b[x]
                        );
                    }
                    ctx.class(["continuous", "smooth, order 1", "smooth, order 2"].get(r).unwrap_or(&"smooth, higher order"));
                }
            }
        }
    }
    // differences are integrals of the derivative
    if let (true, Some(ds)) = (d <= 12, s.derivative()) {
        for j in d..c {
            let h = kf[j + 1] - kf[j];
            if h <= 0.0 {
                continue;
            }
            for (a, b) in [(0.1, 0.9), (0.0, 0.5)] {
                let (t0, t1) = ((kf[j] + h * a) as R, (kf[j] + h * b) as R);
                let (p0, p1) = (at(&*s, t0, &who)?, at(&*s, t1, &who)?);
                let w = t1 as f64 - t0 as f64;
                let mut sum = [0.0f64; 10];
                for (x, g) in GAUSS {
                    let v = at(&*ds, (t0 as f64 + w * x) as R, &who)?;
                    for k in 0..dim {
                        sum[k] += w * g * v[k] as f64;
                    }
                }
                ctx.trans(8);
                // nodes are rounded, and with them the derivative
                let q = bound(1, t0);
                let q2 = if d > 1 { bound(2, t0) } else { 0.0 };
                let e = 4.0 * REL * m + w * (2.0 * REL * q + 2.0 * q2 * EPS * (t0 as f64).abs().max((t1 as f64).abs()));
                for k in 0..dim {
                    let dif = p1[k] as f64 - p0[k] as f64;
                    need!((dif - sum[k]).abs() <= e, "{}: from {t0:?} to {t1:?} axis {k} changes by {dif:?}, the derivative integrates to {:?}", who(), sum[k]);
                }
                ctx.class("integrated");
            }
        }
    }
    // leaving out the first or the last control point keeps the rest of the curve
    if c > d + 1 && SHAPES.contains(&(c - 1, d)) && (dim < 4 || dim == 8) {
        for front in [true, false] {
            let (k2, p2) = if front { (&knots[1..], &ctrl[1..]) } else { (&knots[..c + d], &ctrl[..c - 1]) };
            let y = new(c - 1, d, dim, k2, p2)?;
            let (a, b) = (k2[d], k2[c - 1]);
            ctx.state();
            let (ga, gb) = y.domain();
            need!(ga == a && gb == b, "knots {k2:?} (C={}, D={d}): domain ({ga:?}, {gb:?})", c - 1);
            for (t, p) in ts.iter().zip(&base) {
                // the end of a domain is taken from the left
                if *t < a || *t > b || a == b || *t == b && mult(b) > d {
                    continue;
                }
                let o = at(&*y, *t, &|| format!("knots {k2:?} (C={}, D={d})", c - 1))?;
                ctx.trans(1);
                for k in 0..dim {
                    need!(
                        (o[k] as f64 - p[k] as f64).abs() <= 4.0 * REL * m,
                        "{}: eval({t:?}) is {:?}, without the {} control point {:?}", who(), &p[..dim], if front { "first" } else { "last" }, &o[..dim]
                    );
                }
                ctx.class("shortened");
            }
        }
    }
    // the same curve over stretched and moved knots
    let ds = s.derivative();
    let jumps: Vec<R> = interior.iter().cloned().filter(|k| mult(*k) > d).collect();
    let len = 9usize;
    let l0 = s.arclen(len) as f64;
    let squares = m * m < R::MAX as f64 * 1e-6 && m * m > R::MIN_POSITIVE as f64 * 1e12;
    let spread = kf[c + d] - kf[0];
    for (a, b) in [(2.0, 0.0), (1.0 / 1024.0, 0.0), (1.0, -5.5), (0.3, 0.0), (1e4, 0.25), (1e-3, 0.0), (3.0, 7.75)] {
        // b in units of the knots, so that moving them costs little precision
        let b = b * spread;
        let k2: Vec<R> = kf.iter().map(|k| (a * k + b) as R).collect();
        let y = new(c, d, dim, &k2, ctrl)?;
        ctx.state();
        let reach = k2.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
        let k2f: Vec<f64> = k2.iter().map(|x| *x as f64).collect();
        // distinct knots must stay so
        if (1..k2.len()).any(|i| (knots[i] == knots[i - 1]) != (k2[i] == k2[i - 1])) {
            ctx.class("knots merged by rounding");
            continue;
        }
        let (w1, w2) = (width(&kf, 1), width(&k2f, 1));
        // nothing is rounded when the factor is a power of two
        let exact = b == 0.0 && a.log2().fract() == 0.0;
        let coarse = if exact { 0.0 } else { EPS * (reach / w2 + (kf[0].abs().max(kf[c + d].abs())) / w1) };
        let tol = 4.0 * REL * m + 16.0 * (d + 1) as f64 * m * coarse;
        let dy = y.derivative();
        for (t, p) in ts.iter().zip(&base) {
            let t2 = ((a * *t as f64 + b) as R).clamp(k2[d], k2[c]);
            // beside a jump, or a kink of the derivative, rounding may change sides
            let close = |k: &R| !(exact && t2 as f64 / a == *t as f64) && *k != *t && (*k as f64 - *t as f64).abs() <= 8.0 * EPS * (reach / a + t.abs() as f64);
            if jumps.iter().any(close) {
                continue;
            }
            if t2 == k2[c] && *t != knots[c] && mult(knots[c]) > d {
                // still continuous from the left: fine
            }
            let o = at(&*y, t2, &|| format!("knots {k2:?} (C={c}, D={d})"))?;
            ctx.trans(1);
            for k in 0..dim {
                need!(
                    (o[k] as f64 - p[k] as f64).abs() <= tol,
                    "{}: eval({t:?}) is {:?}, with knots times {a:?} plus {b:?} eval({t2:?}) is {:?}", who(), &p[..dim], &o[..dim]
                );
            }
            if let (Some(ds), Some(dy)) = (&ds, &dy) {
                let q = bound(1, *t);
                let dtol = 4.0 * REL * q + 32.0 * (d + 1) as f64 * q * coarse;
                let kinks = interior.iter().any(|k| mult(*k) >= d && close(k));
                if !kinks {
                    let (u, v) = (at(&**ds, *t, &who)?, at(&**dy, t2, &who)?);
                    ctx.trans(2);
                    for k in 0..dim {
                        need!(
                            (v[k] as f64 * a - u[k] as f64).abs() <= dtol,
                            "{}: derivative at {t:?} is {:?}, with knots times {a:?} plus {b:?} it is {:?} at {t2:?}", who(), &u[..dim], &v[..dim]
                        );
                    }
                }
            }
        }
        if jumps.is_empty() && squares {
            let l = y.arclen(len) as f64;
            ctx.trans(1);
            need!(
                (l - l0).abs() <= (len as f64 + 1.0) * 2.0 * dim as f64 * tol,
                "{}: arclen({len}) is {l0:?}, with knots times {a:?} plus {b:?} it is {l:?}", who()
            );
        }
        ctx.class("reparametrised");
    }
    // never longer than the control polygon
    if squares {
        let poly: f64 = ctrl.windows(2).map(|w| (0..dim).map(|k| (w[1][k] as f64 - w[0][k] as f64).powi(2)).sum::<f64>().sqrt()).sum();
        let mut last = 0.0;
        for n in [1usize, 2, 4, 8, 16] {
            let l = s.arclen(n) as f64;
            ctx.trans(1);
            let e = (n as f64 + 1.0) * 4.0 * REL * m * dim as f64;
            need!(l <= poly + e, "{}: arclen({n}) is {l:?}, the control polygon measures {poly:?}", who());
            // the samples of n are among those of 2n, except that rounding may move them
            if jumps.is_empty() {
                let drift = (n as f64 + 1.0) * 8.0 * m * d as f64 / width(&kf, d) * EPS * (kf[d].abs().max(kf[c].abs()));
                need!(l >= last - e - drift * dim as f64, "{}: arclen({n}) is {l:?}, arclen({}) is {last:?}", who(), n / 2);
            }
            last = l;
            ctx.outcome(l.to_bits());
        }
        ctx.class("lengths compared");
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}"));
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("laws", tier, [150, 3_000, 60_000], check);
    v.extend(ctrl_suites("laws", tier, [150, 3_000, 40_000], check_p));
    for s in v.iter_mut() {
        if s.name == "laws-C5-D2" {
            s.must = vec!["continuous", "smooth, order 1", "integrated", "shortened", "reparametrised", "even motion", "standing still", "lengths compared"];
        }
    }
    v
}
