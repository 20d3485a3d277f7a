//! C10: the constructor accepts exactly the valid inputs, and names the first violated rule.
use crate::bsp::*;
use crate::core::*;
use crate::need;
use crate::shapes::*;
use stroke::BSpline;

type Maker = fn(&[R]) -> Result<(Vec<R>, Vec<R>), BSplineError>;

fn build<const K: usize, const C: usize, const D: usize>(knots: &[R]) -> Result<(Vec<R>, Vec<R>), BSplineError> {
    let mut k = [0.0 as R; K];
    k.copy_from_slice(knots);
    let mut c = [pt([0.0 as R; 2]); C];
    for (i, p) in c.iter_mut().enumerate() {
        *p = pt([i as R * 1.5 - 0.25, 7.0 - i as R]);
    }
    let s = BSpline::<Pt<2>, K, C, D>::new(k, c)?;
    Ok((s.knots().copied().collect(), s.control_points().flat_map(|p| arr(*p)).collect()))
}

fn expected(k: usize, c: usize, d: usize, knots: &[R]) -> Result<(), BSplineError> {
    if c <= d {
        Err(BSplineError::TooFewControlPoints)
    } else if k < c + d + 1 {
        Err(BSplineError::TooFewKnots)
    } else if k > c + d + 1 {
        Err(BSplineError::TooManyKnots)
    } else {
        for i in 1..k {
            // "not less or equal", so that NaN is a violation
            let ok = knots[i - 1] <= knots[i];
            if !ok {
                return Err(BSplineError::DecreasingKnots);
            }
        }
        Ok(())
    }
}

fn check(k: usize, c: usize, d: usize, f: Maker, knots: &[R], ctx: &mut Ctx) -> Res {
    let want = expected(k, c, d, knots);
    let got = f(knots);
    ctx.state();
    ctx.trans(1);
    match (&want, &got) {
        (Ok(()), Ok((kn, cp))) => {
            need!(
                kn.len() == k && kn.iter().zip(knots).all(|(a, b)| a == b),
                "K={k} C={c} D={d}: knots() returns {kn:?} for {knots:?}"
            );
            let cw: Vec<R> = (0..c).flat_map(|i| [i as R * 1.5 - 0.25, 7.0 - i as R]).collect();
            need!(*cp == cw, "K={k} C={c} D={d}: control_points() returns {cp:?} instead of {cw:?}");
            ctx.trans(2);
            ctx.class("accepted");
            ctx.outcome(0);
        }
        (Err(e), Err(g)) if e == g => {
            ctx.class(match e {
                BSplineError::TooFewControlPoints => "too few control points",
                BSplineError::TooFewKnots => "too few knots",
                BSplineError::TooManyKnots => "too many knots",
                _ => "decreasing knots",
            });
            ctx.outcome(1 + *e as u64);
        }
        _ => {
            return Err(Violation(format!(
                "K={k} C={c} D={d}, knots {knots:?}: new() is {}, should be {want:?}",
                match &got {
                    Ok(_) => "Ok".to_string(),
                    Err(e) => format!("Err({e:?})"),
                }
            )))
        }
    }
    ctx.trace();
    ctx.sample(|| format!("K={k} C={c} D={d} knots {knots:?} -> {want:?}"));
    Ok(())
}

macro_rules! makers {
    ($($k:literal)*) => {{
        let mut v: Vec<(usize, usize, usize, Maker)> = vec![];
        $( makers!(@c v $k ; 0 1 2 3 4 5 6); )*
        v
    }};
    (@c $v:ident $k:literal ; $($c:literal)*) => { $( makers!(@d $v $k $c ; 0 1 2 3 4 5); )* };
    (@d $v:ident $k:literal $c:literal ; $($d:literal)*) => { $( $v.push(($k, $c, $d, build::<$k, $c, $d> as Maker)); )* };
}

fn words(k: usize, c: usize, d: usize, f: Maker, al: Vec<R>, what: &str) -> Suite {
    suite(
        format!("words-{what}-K{k}-C{c}-D{d}"),
        format!("all words of {k} knots over {al:?} for C={c}, D={d}"),
        ipow(al.len(), k),
        move |i, ctx| {
            let knots = Digits(i).vals(&al, k);
            check(k, c, d, f, &knots, ctx)
        },
    )
}

/// The same through the type-erased splines: valid (C, D) of any size, any dimension, any control points.
fn check_sp(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    let k = c + d + 1;
    let want = expected(k, c, d, knots);
    ctx.state();
    ctx.trans(1);
    match (make(c, d, dim, knots, ctrl), &want) {
        (Ok(s), Ok(())) => {
            let kn = s.knots();
            need!(
                kn.len() == k && kn.iter().zip(knots).all(|(a, b)| a.to_bits() == b.to_bits()),
                "C={c} D={d} in {dim} dimensions: knots() returns {kn:?} for {knots:?}"
            );
            let cp = s.ctrl();
            need!(
                cp.len() == c && cp.iter().flatten().zip(ctrl.iter().flatten()).all(|(a, b)| a.to_bits() == b.to_bits()),
                "C={c} D={d} in {dim} dimensions: control_points() returns {cp:?} for {ctrl:?}"
            );
            ctx.trans(2);
            ctx.class("accepted");
            ctx.outcome(0);
        }
        (Err(g), Err(e)) if g == *e => {
            ctx.class("decreasing knots");
            ctx.outcome(1);
        }
        (g, _) => {
            return Err(Violation(format!(
                "C={c} D={d} in {dim} dimensions, knots {knots:?}, control points {ctrl:?}: new() is {:?}, should be {want:?}",
                g.map(|_| "Ok")
            )))
        }
    }
    ctx.trace();
    ctx.sample(|| format!("C={c} D={d} in {dim} dimensions, knots {knots:?} -> {want:?}"));
    Ok(())
}
/// A valid knot vector, and the same with a drop or a NaN at every position.
fn check_broken(knots: &[R], c: usize, d: usize, dim: usize, ctrl: &[Vec<R>], ctx: &mut Ctx) -> Res {
    check_sp(knots, c, d, dim, ctrl, ctx)?;
    for p in 0..knots.len() {
        let mut x = knots.to_vec();
        x[p] = R::NAN;
        check_sp(&x, c, d, dim, ctrl, ctx)?;
        if p > 0 {
            x[p] = next_down(x[p - 1]);
            check_sp(&x, c, d, dim, ctrl, ctx)?;
        }
        if p + 1 < knots.len() {
            x[p] = next_up(x[p + 1]);
            check_sp(&x, c, d, dim, ctrl, ctx)?;
            // two neighbours exchanged
            let mut x = knots.to_vec();
            x.swap(p, p + 1);
            check_sp(&x, c, d, dim, ctrl, ctx)?;
        }
    }
    Ok(())
}
/// Control points are never a reason to refuse.
fn odd_points(c: usize, dim: usize, which: usize) -> Vec<Vec<R>> {
    let v = [R::NAN, R::INFINITY, -R::INFINITY, R::MAX, R::MIN_POSITIVE, -0.0][which % 6];
    let mut p = pattern(c, dim, which);
    match which / 6 {
        0 => p.iter_mut().flatten().for_each(|x| *x = v),
        1 => p[0][0] = v,
        2 => p[c - 1][dim - 1] = v,
        _ => p[c / 2].fill(v),
    }
    p
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let nan = R::NAN;
    let inf = R::INFINITY;
    let all = makers!(0 1 2 3 4 5 6 7 8 9 10 11 12 13);
    let mut v = vec![];
    // every shape with a handful of knot vectors: increasing, constant, decreasing somewhere, NaN somewhere
    let shapes = all.clone();
    v.push(
        suite(
            "shapes",
            "every (K, C, D) with K <= 13, C <= 6, D <= 5, with increasing, constant, uneven knots and with a drop or a NaN at every position",
            shapes.len() as u64,
            move |i, ctx| {
                let (k, c, d, f) = shapes[i as usize];
                let up: Vec<R> = (0..k).map(|j| j as R * 0.5 - 1.0).collect();
                let flat: Vec<R> = vec![2.5; k];
                let infs: Vec<R> = (0..k).map(|j| if j == 0 { -inf } else if j + 1 == k { inf } else { j as R }).collect();
                for w in [&up, &flat, &infs] {
                    check(k, c, d, f, w, ctx)?;
                    for p in 0..k {
                        let mut x = w.clone();
                        x[p] = nan;
                        // a lone NaN cannot be in a valid shape (K >= 2), so every position must be refused
                        check(k, c, d, f, &x, ctx)?;
                        let mut x = w.clone();
                        x[p] = if p == 0 { 1e9 } else { next_down(x[p - 1]) };
                        check(k, c, d, f, &x, ctx)?;
                        let mut x = w.clone();
                        if p > 0 {
                            x[p] = x[p - 1];
                        }
                        check(k, c, d, f, &x, ctx)?;
                    }
                }
                Ok(())
            },
        )
        .must(&["accepted", "too few control points", "too few knots", "too many knots", "decreasing knots"]),
    );
    let mut sp = word_suites("any", tier, [200, 5_000, 100_000], |k, c, d, s, ctx| {
        check_broken(k, c, d, 1, &pattern_s(c, 1, 0, s), ctx)?;
        for dim in [2, 3, 8] {
            check_sp(k, c, d, dim, &pattern_s(c, dim, dim, s), ctx)?;
        }
        Ok(())
    });
    sp.extend(ctrl_suites("any", tier, [300, 10_000, 100_000], check_broken));
    for (c, d) in [(3usize, 0usize), (4, 1), (4, 2), (5, 3)] {
        sp.push(suite(
            format!("any-odd-C{c}-D{d}"),
            format!("24 sets of {c} control points with NaN, infinite, huge, tiny or negative zero coordinates x 10 dimensions, degree {d}"),
            240,
            move |i, ctx| {
                let dim = i as usize % 10 + 1;
                let knots: Vec<R> = (0..c + d + 1).map(|j| j as R * 0.75 - 1.0).collect();
                check_broken(&knots, c, d, dim, &odd_points(c, dim, i as usize / 10), ctx)
            },
        ));
    }
    for s in sp.iter_mut() {
        s.must = vec!["accepted", "decreasing knots"];
    }
    v.extend(sp);
    // every word over small alphabets for the valid shapes and their neighbours
    let lim = tier.pick(3_000u64, 300_000, 10_000_000);
    let eps = R::EPSILON;
    let alphabets: Vec<(&str, Vec<R>)> = vec![
        ("order", vec![0.0, 1.0, 2.0]),
        ("ulp", vec![1.0, 1.0 + eps, 1.0 - eps / 2.0]),
        ("special", vec![0.0, 1.0, nan, -1.0]),
        ("extreme", vec![-inf, 0.0, -0.0, inf, nan]),
        ("tiny", vec![0.0, R::MIN_POSITIVE, -R::MIN_POSITIVE, eps]),
    ];
    for &(k, c, d, f) in &all {
        let valid = c > d && k == c + d + 1;
        let neighbour = c > d && (k == c + d || k == c + d + 2) || c == d && k == c + d + 1;
        for (what, al) in &alphabets {
            let n = ipow(al.len(), k);
            if valid && n <= lim || neighbour && n <= lim / 30 {
                let mut s = words(k, c, d, f, al.clone(), what);
                if valid {
                    s.must = vec!["accepted", "decreasing knots"];
                }
                v.push(s);
            }
        }
    }
    v
}
