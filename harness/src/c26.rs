//! C26: curves and errors are plain values: equality, wrapping, copies, error reports.
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::shapes::*;
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, CubicBezier, LineSegment, QuadraticBezier};

/// How one coordinate is changed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Change {
    Up,
    Down,
    /// to the neighbouring float
    Ulp,
    /// +0 becomes -0 and the other way round, other numbers are negated
    Sign,
    Nan,
    Zero,
    Far,
}
const CHANGES: [Change; 7] = [Change::Up, Change::Down, Change::Ulp, Change::Sign, Change::Nan, Change::Zero, Change::Far];
fn change(x: R, c: Change) -> R {
    match c {
        Change::Up => x + 1.0,
        Change::Down => x - 1.0,
        Change::Ulp => next_up(x),
        Change::Sign => -x,
        Change::Nan => R::NAN,
        Change::Zero => 0.0,
        Change::Far => R::MAX,
    }
}
const BASE: [f64; 7] = [1.5, 0.0, -0.0, -2.0, 1e-9, 3.25e4, 0.1];

fn build<const D: usize>(c: &[[R; D]]) -> BezierSegment<Pt<D>> {
    match c.len() {
        2 => LineSegment::new(pt(c[0]), pt(c[1])).into(),
        3 => QuadraticBezier::new(pt(c[0]), pt(c[1]), pt(c[2])).into(),
        _ => CubicBezier::new(pt(c[0]), pt(c[1]), pt(c[2]), pt(c[3])).into(),
    }
}

/// a and b, of the same kind, compared in every form the library offers
fn compare<const D: usize>(a: &[[R; D]], b: &[[R; D]], ctx: &mut Ctx) -> Res {
    let want = a.iter().zip(b).all(|(x, y)| x.iter().zip(y).all(|(u, v)| u == v));
    ctx.class(if want { "equal curves" } else { "unequal curves" });
    let check = |what: &str, e: bool, n: bool| -> Res {
        need!(e == want, "{what}: {a:?} == {b:?} gives {e}");
        need!(n != want, "{what}: {a:?} != {b:?} gives {n}");
        Ok(())
    };
    match a.len() {
        2 => {
            let (x, y) = (LineSegment::new(pt(a[0]), pt(a[1])), LineSegment::new(pt(b[0]), pt(b[1])));
            check("lines", x == y, x != y)?;
            check("lines, exchanged", y == x, y != x)?;
            need!(matches!(BezierSegment::from(x), BezierSegment::Linear(l) if (l == x) == (x == x)), "a wrapped line is not that line: {a:?}");
        }
        3 => {
            let (x, y) = (QuadraticBezier::new(pt(a[0]), pt(a[1]), pt(a[2])), QuadraticBezier::new(pt(b[0]), pt(b[1]), pt(b[2])));
            check("quadratics", x == y, x != y)?;
            check("quadratics, exchanged", y == x, y != x)?;
            need!(matches!(BezierSegment::from(x), BezierSegment::Quadratic(l) if (l == x) == (x == x)), "a wrapped quadratic is not that quadratic: {a:?}");
        }
        _ => {
            let (x, y) = (CubicBezier::new(pt(a[0]), pt(a[1]), pt(a[2]), pt(a[3])), CubicBezier::new(pt(b[0]), pt(b[1]), pt(b[2]), pt(b[3])));
            check("cubics", x == y, x != y)?;
            check("cubics, exchanged", y == x, y != x)?;
            need!(matches!(BezierSegment::from(x), BezierSegment::Cubic(l) if (l == x) == (x == x)), "a wrapped cubic is not that cubic: {a:?}");
        }
    }
    let (x, y) = (build(a), build(b));
    check("wrapped curves", x == y, x != y)?;
    check("wrapped curves, exchanged", y == x, y != x)?;
    ctx.trans(9);
    Ok(())
}

/// Every subset (of at most `most`) of the coordinates changed in every one way, and alternately in two.
fn equality<const D: usize>(n: usize, most: u32, bases: usize) -> Suite {
    let coords = n * D;
    let masks: Vec<u64> = if coords <= 12 {
        (0..1u64 << coords).filter(|m| m.count_ones() <= most).collect()
    } else {
        let mut v = vec![0];
        for i in 0..coords {
            v.push(1 << i);
            for j in 0..i {
                v.push(1 << i | 1 << j);
                if most > 2 {
                    v.extend((0..j).map(|k| 1u64 << i | 1 << j | 1 << k));
                }
            }
        }
        v.push((1 << coords) - 1);
        v
    };
    let k = CHANGES.len();
    let all = masks.len() * k * k * bases;
    suite(
        format!("equality-n{n}-{D}d"),
        format!("{bases} control polygons of {n} points in {D} dimensions; {} subsets of their {coords} coordinates changed, in every pair of ways from {CHANGES:?} laid alternately over the subset; ==, != in both directions, bare and wrapped, against componentwise equality", masks.len()),
        all as u64,
        move |i, ctx| {
            let mut dg = Digits(i);
            let (c1, c2) = (CHANGES[dg.take(k)], CHANGES[dg.take(k)]);
            let base = dg.take(bases);
            let mask = masks[dg.take(masks.len())];
            let mut a = vec![[0.0 as R; D]; n];
            for (j, p) in a.iter_mut().enumerate() {
                for (d, x) in p.iter_mut().enumerate() {
                    // base 0: all coordinates alike, so that equal values stand at different places
                    *x = if base == 0 { 1.5 } else { BASE[(j * (base + 1) + d * 3 + base) % BASE.len()] as R };
                }
            }
            let mut b = a.clone();
            let mut odd = false;
            for j in 0..coords {
                if mask >> j & 1 == 1 {
                    b[j / D][j % D] = change(a[j / D][j % D], if odd { c2 } else { c1 });
                    odd = !odd;
                }
            }
            ctx.state();
            ctx.sample(|| format!("{a:?} and {b:?}"));
            compare(&a, &b, ctx)?;
            compare(&b, &b, ctx)?;
            ctx.outcome(mask);
            ctx.trace();
            Ok(())
        },
    )
    .must(&["equal curves", "unequal curves"])
}

/// Every pair of polygons over a small alphabet.
fn pairs<const D: usize>(n: usize, al: Vec<R>) -> Suite {
    let all = lattice_n::<D>(2 * n, al.len());
    suite(
        format!("pairs-n{n}-{D}d"),
        format!("every pair of control polygons of {n} points in {D} dimensions over {al:?}: ==, != in both directions, bare and wrapped, against componentwise equality"),
        all,
        move |i, ctx| {
            let c = lattice::<D>(i, 2 * n, &al);
            ctx.state();
            compare(&c[..n], &c[n..], ctx)?;
            ctx.trace();
            Ok(())
        },
    )
    .must(&["equal curves", "unequal curves"])
}

/// A polygon and its images: points rearranged, axes exchanged, mirrored, scaled, moved.
fn images<const D: usize>(n: usize) -> Suite {
    fn perms(n: usize) -> Vec<Vec<usize>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut v = vec![];
        for p in perms(n - 1) {
            for at in 0..n {
                let mut q = p.clone();
                q.insert(at, n - 1);
                v.push(q);
            }
        }
        v
    }
    let (po, ao) = (perms(n), if D <= 3 { perms(D) } else { (0..D).map(|r| (0..D).map(|d| (d + r) % D).collect()).collect() });
    const SCALE: [f64; 4] = [1.0, -1.0, 2.0, 1.0000001];
    const MOVE: [f64; 4] = [0.0, 1.0, 1e-9, -3.0];
    const KINDS: usize = 5;
    let all = (po.len() * ao.len() * 16 * 2 * KINDS) as u64;
    suite(
        format!("images-n{n}-{D}d"),
        format!("{KINDS} control polygons of {n} points in {D} dimensions against all their images: {} orders of the points, {} orders of the axes, scaled by {SCALE:?} and moved by {MOVE:?} on all axes or on the first only", po.len(), ao.len()),
        all,
        move |i, ctx| {
            let mut dg = Digits(i);
            let (k, one, sc, mv) = (dg.take(KINDS), dg.take(2) == 1, dg.take(4), dg.take(4));
            let (pp, aa) = (&po[dg.take(po.len())], &ao[dg.take(ao.len())]);
            let a: Vec<[R; D]> = (0..n)
                .map(|j| {
                    core::array::from_fn(|d| match k {
                        0 => (j * D + d) as R + 0.5,
                        1 => ((j * 7 + d * 5) % 11) as R - 5.0,
                        2 => j as R,
                        3 => d as R + 1.0,
                        _ => if j == 0 || j == n - 1 { 1.25 } else { (j + d) as R * 0.1 },
                    })
                })
                .collect();
            let b: Vec<[R; D]> = (0..n)
                .map(|j| core::array::from_fn(|d| {
                    let x = a[pp[j]][aa[d]];
                    if one && d > 0 { x } else { x * SCALE[sc] as R + MOVE[mv] as R }
                }))
                .collect();
            ctx.state();
            compare(&a, &b, ctx)?;
            compare(&b, &a, ctx)?;
            ctx.trace();
            Ok(())
        },
    )
    .must(&["equal curves", "unequal curves"])
}

/// Kinds are told apart even where the curves are the same set of points.
fn kinds<const D: usize>(al: Vec<R>) -> Suite {
    let n = lattice_n::<D>(4, al.len());
    suite(
        format!("kinds-{D}d"),
        format!("every 4 control points over {al:?} in {D} dimensions: a line, a quadratic and a cubic from their first 2, 3, 4, and their degenerate forms, wrapped: pairwise unequal"),
        n,
        move |i, ctx| {
            let c = lattice::<D>(i, 4, &al);
            let l = build(&c[..2]);
            let q = [build(&c[..3]), build(&[c[0], c[1], c[1]]), build(&[c[0], c[0], c[1]])];
            let k = [build(&c[..4]), build(&[c[0], c[1], c[2], c[2]]), build(&[c[0], c[0], c[1], c[1]]), build(&[c[0], c[1], c[1], c[1]])];
            ctx.state();
            for x in q {
                need!(l != x && x != l && !(l == x) && !(x == l), "a wrapped line equals a wrapped quadratic: {c:?}");
                for y in k {
                    need!(y != x && x != y && !(y == x) && !(x == y), "a wrapped quadratic equals a wrapped cubic: {c:?}");
                    need!(y != l && l != y && !(y == l) && !(l == y), "a wrapped line equals a wrapped cubic: {c:?}");
                }
            }
            ctx.trans(30);
            ctx.trace();
            Ok(())
        },
    )
}

const VALS: [f64; 6] = [0.0, 1.0, -2.5, 0.1, -0.0, -1e-8];
const GAPS: [f64; 3] = [0.0, 1.0, 0.3];
fn copies<const D: usize, W: World + 'static>(na: usize, f: fn(Data<D>) -> W) -> Suite {
    let n = ipow(na, 3) * ipow(GAPS.len(), 3);
    suite(
        format!("copies-{D}d-{}", n),
        format!("every word of 3 coordinates from {:?} and of 3 knot gaps from {GAPS:?} laid over all curves in {D} dimensions: clones, copies, and clones of copies after the originals are gone, in every operation bit for bit like newly built objects", &VALS[..na]),
        n,
        move |i, ctx| {
            let mut dg = Digits(i);
            let c: Vec<usize> = (0..3).map(|_| dg.take(na)).collect();
            let g: Vec<usize> = (0..3).map(|_| dg.take(GAPS.len())).collect();
            let mut ctrl = [[0.0 as R; D]; 12];
            for (i, p) in ctrl.iter_mut().enumerate() {
                for (d, x) in p.iter_mut().enumerate() {
                    *x = VALS[c[(i + d + i / 3) % 3]] as R;
                }
            }
            let mut gaps = [0.0 as R; 20];
            for (i, x) in gaps.iter_mut().enumerate() {
                *x = GAPS[g[i % 3]] as R;
            }
            let data = Data { ctrl, query: [0.75; D], first: -1.0, gaps };
            let w = f(data.clone());
            let cl = w.dup(false);
            let cp = w.dup(true);
            let deep = cp.dup(false).dup(true);
            drop(w);
            let fresh = f(data.clone());
            ctx.state();
            let (mut o1, mut o2) = (Box::new(Out::new()), Box::new(Out::new()));
            for (j, (t, n)) in [(0.3, 3), (1.0, 1)].into_iter().enumerate() {
                let q = Par { t, n, tol: 0.5 };
                for op in 0.. {
                    if !fresh.step(op, q, &mut o1) {
                        break;
                    }
                    for (x, what) in [(&cl, "clone"), (&cp, "copy"), (&deep, "copy of a clone")] {
                        x.step(op, q, &mut o2);
                        need!(
                            o1.values().len() == o2.values().len() && o1.values().iter().zip(o2.values()).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()),
                            "{} of a {what} gives {:?}, of a newly built object {:?} ({data:?}, t = {t}, n = {n})", o1.name, o2.values(), o1.values()
                        );
                        ctx.trans(1);
                    }
                    ctx.outcome(o1.hash() ^ j as u64);
                }
            }
            ctx.trace();
            Ok(())
        },
    )
}

fn errors() -> Suite {
    const ALL: [BSplineError; 6] = [
        BSplineError::TooFewControlPoints, BSplineError::TooFewKnots, BSplineError::TooManyKnots,
        BSplineError::DecreasingKnots, BSplineError::KnotDomainViolation, BSplineError::EvaluationAlphaIsNaN,
    ];
    suite("errors", "all ordered pairs of error values: equality, copies, messages in every width and as the result of a failing call", 36, |i, ctx| {
        let (a, b) = (ALL[i as usize / 6], ALL[i as usize % 6]);
        let same = i / 6 == i % 6;
        ctx.state();
        need!((a == b) == same && (a != b) != same, "errors {a:?} == {b:?} is {}", a == b);
        let c = a;
        need!(c == a && c.clone() == a, "a copy of {a:?} differs from it");
        let (x, y) = (format!("{a}"), format!("{b}"));
        need!(!x.trim().is_empty(), "error {a:?} has no message");
        need!((x == y) == same, "errors {a:?} and {b:?} have the messages {x:?} and {y:?}");
        need!((format!("{a:?}") == format!("{b:?}")) == same, "errors {a:?} and {b:?} look alike");
        need!(a.to_string() == x && format!("{}", &a) == x, "the message of {a:?} changes");
        if i == 0 {
            let p = [pt([0.0 as R; 2]); 4];
            let msg = |r: Result<(), BSplineError>| r.err().map(|e| (e, e.to_string()));
            let made = [
                (msg(BSpline::<Pt<2>, 4, 2, 2>::new([0.0; 4], [p[0]; 2]).map(|_| ())), BSplineError::TooFewControlPoints),
                (msg(BSpline::<Pt<2>, 6, 4, 2>::new([0.0; 6], p).map(|_| ())), BSplineError::TooFewKnots),
                (msg(BSpline::<Pt<2>, 8, 4, 2>::new([0.0; 8], p).map(|_| ())), BSplineError::TooManyKnots),
                (msg(BSpline::<Pt<2>, 7, 4, 2>::new([0.0, 0.0, 0.0, 1.0, 0.5, 2.0, 2.0], p).map(|_| ())), BSplineError::DecreasingKnots),
                (msg(BSpline::<Pt<2>, 7, 4, 2>::new([0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0], p).unwrap().eval(2.5).map(|_| ())), BSplineError::KnotDomainViolation),
            ];
            for (got, want) in made {
                need!(got == Some((want, want.to_string())), "a call that fails with {want:?} reports {got:?}");
                ctx.trans(1);
            }
        }
        ctx.trans(6);
        ctx.trace();
        Ok(())
    })
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let most = tier.pick(2, 12, 12);
    let b = tier.pick(1, 3, 7);
    let wide = tier.pick(2, 2, 3);
    let al = |n: usize| alpha(n);
    vec![
        equality::<1>(2, most, 7),
        equality::<1>(3, most, 7),
        equality::<1>(4, most, 7),
        equality::<2>(2, most, 7),
        equality::<2>(3, most, b),
        equality::<2>(4, most, b),
        equality::<3>(2, most, b),
        equality::<3>(3, most, b),
        equality::<3>(4, most, b),
        equality::<5>(2, most, b),
        equality::<5>(4, wide, b),
        equality::<8>(2, wide, b),
        equality::<9>(3, wide, b),
        equality::<9>(4, wide, b),
        pairs::<1>(2, vec![0.0, -0.0, 1.0, -1.0, 0.5, 1e-9, 3e5, R::NAN][..tier.pick(4, 8, 8)].to_vec()),
        pairs::<1>(3, vec![0.0, 1.0, -1.0, -0.0, 1e-9, 2.0][..tier.pick(3, 5, 6)].to_vec()),
        pairs::<1>(4, vec![0.0, 1.0, -1.0, 2.0, -0.0][..tier.pick(2, 4, 5)].to_vec()),
        pairs::<2>(2, vec![0.0, 1.0, -1.0, -0.0, 2.0][..tier.pick(2, 4, 5)].to_vec()),
        pairs::<2>(3, vec![0.0, 1.0, -1.0][..tier.pick(2, 3, 3)].to_vec()),
        pairs::<2>(4, vec![0.0, 1.0]),
        pairs::<3>(2, vec![0.0, 1.0, -1.0][..tier.pick(2, 3, 3)].to_vec()),
        pairs::<3>(3, vec![0.0, 1.0]),
        images::<1>(2),
        images::<1>(3),
        images::<1>(4),
        images::<2>(2),
        images::<2>(3),
        images::<2>(4),
        images::<3>(2),
        images::<3>(3),
        images::<3>(4),
        images::<7>(4),
        kinds::<1>(al(tier.pick(2, 6, 8))),
        kinds::<2>(al(tier.pick(2, 3, 4))),
        kinds::<3>(al(2)),
        copies::<1, W1>(tier.pick(1, 6, 6), W1::new),
        copies::<2, W2>(tier.pick(1, 6, 6), W2::new),
        copies::<3, W3>(tier.pick(1, 4, 6), W3::new),
        copies::<8, W8>(tier.pick(1, 3, 6), W8::new),
        copies::<2, WX>(tier.pick(1, 3, 4), WX::new),
        copies::<1, WY>(tier.pick(1, 2, 3), WY::new),
        copies::<6, WZ>(tier.pick(1, 3, 5), WZ::new),
        errors(),
    ]
}
