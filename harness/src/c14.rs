//! C14: B-spline arc length is the polyline length over the whole domain.
use crate::bsp::*;
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;
use crate::shapes::step_counts;

fn steps(long: bool) -> &'static [usize] {
    if long {
        &[1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64, 100, 127, 256, 500, 1000, 1024]
    } else {
        &[1, 2, 3, 4, 5, 7, 8, 10, 33]
    }
}

fn check_n(knots: &[R], c: usize, d: usize, ns: &[usize], scale: f64, ctx: &mut Ctx) -> Res {
    let pats = [(1usize, 0usize), (2, 3), (3, 2)].iter().map(|&(dim, w)| pattern_s(c, dim, w, scale)).collect();
    check_pats(knots, c, d, ns, pats, scale, ctx)
}
fn check_p(knots: &[R], c: usize, d: usize, _dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    check_pats(knots, c, d, &[1, 2, 3, 5, 16], vec![ctrl.to_vec()], 1.0, ctx)
}
fn check_pats(knots: &[R], c: usize, d: usize, ns: &[usize], pats: Vec<Vec<Vec<R>>>, scale: f64, ctx: &mut Ctx) -> Res {
    if knots[d] == knots[c] {
        return Ok(());
    }
    ctx.class(classify(knots, c, d));
    let kf: Vec<f64> = knots.iter().map(|x| *x as f64).collect();
    let (a, b) = (kf[d], kf[c]);
    // interior discontinuities: knots of multiplicity above D
    let jumps: Vec<f64> = (d + 1..c).filter(|&i| kf[i] > a && kf[i] < b && kf.iter().filter(|x| **x == kf[i]).count() > d).map(|i| kf[i]).collect();
    let ulp = 4.0 * EPS * (a.abs().max(b.abs()) + (b - a));
    let splines: Vec<(usize, Vec<Vec<R>>, Box<dyn Sp>)> = pats
        .into_iter()
        .map(|p| {
            let dim = p[0].len();
            let s = make(c, d, dim, knots, &p).unwrap();
            (dim, p, s)
        })
        .collect();
    // a spline that does not move at all
    let still_p: Vec<Vec<R>> = (0..c).map(|_| vec![(3.25 * scale) as R, (-1.5 * scale) as R]).collect();
    let still = make(c, d, 2, knots, &still_p).unwrap();
    ctx.state();
    // steepest change of the basis: bound on the effect of a rounded parameter
    let minw = (0..kf.len() - d.max(1)).map(|i| kf[i + d.max(1)] - kf[i]).filter(|x| *x > 0.0).fold(f64::INFINITY, f64::min);
    for &n in ns {
        let ts: Vec<DD> = (0..=n).map(|i| dd(a) + (dd(b) - dd(a)) * (dd(i as f64) / dd(n as f64))).collect();
        if ts[1..].iter().any(|t| jumps.iter().any(|j| (t.f() - j).abs() <= ulp)) {
            ctx.class("sample on a jump (skipped)");
            continue;
        }
        let ws: Vec<Vec<DD>> = ts
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let tf = if i == n { b } else { t.f().clamp(a, b) };
                let k = span(&kf, c, d, tf).unwrap();
                basis_in_span(&kf, c, d, *t, 0, k)
            })
            .collect();
        for (dim, p, s) in &splines {
            let m = p.iter().flatten().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
            let cols: Vec<Vec<f64>> = (0..*dim).map(|k| p.iter().map(|x| x[k] as f64).collect()).collect();
            let pts: Vec<Vec<DD>> = ws.iter().map(|w| cols.iter().map(|c| dot(w, c)).collect()).collect();
            let seg = |x: &Vec<DD>, y: &Vec<DD>| {
                let mut q = ZERO;
                for (a, b) in x.iter().zip(y) {
                    q = q + (*a - *b) * (*a - *b);
                }
                q.f().max(0.0).sqrt()
            };
            let want: f64 = pts.windows(2).map(|w| seg(&w[0], &w[1])).sum();
            let chord = seg(&pts[0], &pts[n]);
            let got = s.arclen(n) as f64;
            ctx.trans(1);
            let tol = (n as f64 + 1.0) * (2.0 * REL * m + 8.0 * m * d as f64 * ulp / minw);
            need!(
                (got - want).abs() <= tol,
                "knots {knots:?} (C={c}, D={d}), control points {p:?}: arclen({n}) is {got:?}, the polyline over the domain [{a:?}, {b:?}] measures {want:?}"
            );
            need!(got >= chord - tol, "knots {knots:?} (C={c}, D={d}): arclen({n}) = {got:?} below the end-to-end distance {chord:?}");
            ctx.outcome(got.to_bits());
            ctx.class("length compared");
        }
        let z = still.arclen(n) as f64;
        ctx.trans(1);
        need!(z.abs() <= (n as f64 + 1.0) * REL * 4.0 * scale, "knots {knots:?} (C={c}, D={d}): all control points coincide, but arclen({n}) = {z:?}");
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} knots {knots:?}"));
    Ok(())
}
fn check(knots: &[R], c: usize, d: usize, scale: f64, ctx: &mut Ctx) -> Res {
    check_n(knots, c, d, steps(false), scale, ctx)
}
fn check_long(knots: &[R], c: usize, d: usize, ctx: &mut Ctx) -> Res {
    check_n(knots, c, d, steps(true), 1.0, ctx)
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = word_suites("length", tier, [200, 6_000, 150_000], check);
    for s in v.iter_mut() {
        if s.name == "length-C5-D2" {
            s.must = vec!["clamped", "unclamped", "clamped at the start", "clamped at the end", "length compared"];
        }
    }
    v.extend(ctrl_suites("length", tier, [300, 8_000, 100_000], check_p));
    // domains of many offsets and lengths, long step counts
    let frames: Vec<(f64, f64)> = {
        let mut f = vec![];
        for a in [0.0, 0.1, -0.3, 1.0, -1.0, 5.7, -20.0, 1000.5, 1.0 / 3.0] {
            for u in [1.0, 0.1, 0.2, 0.37, 3.0, 100.0, 1e-3] {
                f.push((a, u));
            }
        }
        f
    };
    for (c, d) in [(4usize, 0usize), (5, 1), (4, 2), (5, 3), (6, 2), (6, 4)] {
        let gaps: Vec<Vec<f64>> = {
            let mut v = long_words(c, d);
            v.truncate(tier.pick(4, 60, 400));
            v
        };
        let some: Vec<Vec<f64>> = gaps.iter().step_by((gaps.len() / 3).max(1)).take(3).cloned().collect();
        let ns = step_counts(tier.pick(60, 400, 3000), tier.pick(1100, 140_000, 300_000));
        v.push(suite(
            format!("length-steps-C{c}-D{d}"),
            format!("{} gap patterns (C={c}, D={d}) x {} step counts up to {}", some.len(), ns.len(), ns.iter().max().unwrap()),
            (some.len() * ns.len()) as u64,
            move |i, ctx| {
                let m = some.len() as u64;
                check_n(&word(-1.25, 0.8, &some[(i % m) as usize]), c, d, &[ns[(i / m) as usize]], 1.0, ctx)
            },
        ));
        let frames = frames.clone();
        v.push(suite(
            format!("length-frames-C{c}-D{d}"),
            format!("{} gap patterns (C={c}, D={d}) at {} (first knot, unit) pairs, {} step counts up to 1024", gaps.len(), frames.len(), steps(true).len()),
            gaps.len() as u64 * frames.len() as u64,
            move |i, ctx| {
                let nf = frames.len() as u64;
                let (f0, u) = frames[(i % nf) as usize];
                check_long(&word(f0, u, &gaps[(i / nf) as usize]), c, d, ctx)
            },
        ));
    }
    v
}
