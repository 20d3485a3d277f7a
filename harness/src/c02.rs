//! C02: the specialised, generic and enum-wrapped forms of the same curve are interchangeable.
use crate::core::*;
use crate::need;
use crate::shapes::*;
use stroke::bezier_segment::BezierSegment;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

const STEPS: [usize; 7] = [1, 2, 3, 5, 16, 33, 64];

fn ends<const DIM: usize>(what: &str, b: LineSegment<Pt<DIM>>, c: &[[R; DIM]]) -> Res {
    let l = Curve::ctrl(&b);
    need!(
        l[0] == c[0] && l[1] == c[c.len() - 1],
        "{what} of {c:?} is {l:?}, not the segment between the end points"
    );
    Ok(())
}

/// All observations two representations share.
fn pair<const DIM: usize, A: Curve<DIM>, B: Curve<DIM>>(c: &[[R; DIM]], ts: &[R], ctx: &mut Ctx) -> Res {
    let s = scale_of(c);
    let tol = 2.0 * REL * s;
    let a = A::build(c);
    let b = B::build(c);
    ctx.state();
    ctx.state();
    let (ka, kb) = (A::kind(), B::kind());
    need!(a.ctrl() == c && b.ctrl() == c, "control points read back from {c:?}: {ka} {:?}, {kb} {:?}", a.ctrl(), b.ctrl());
    for &t in ts {
        let (x, y) = (a.eval(t), b.eval(t));
        need!(same(x, y, tol), "eval({t:?}) of {c:?}: {ka} {x:?}, {kb} {y:?}");
        let ((al, ar), (bl, br)) = (a.split(t), b.split(t));
        for (side, p, q) in [("left", al.ctrl(), bl.ctrl()), ("right", ar.ctrl(), br.ctrl())] {
            for (u, v) in p.iter().zip(&q) {
                need!(same(*u, *v, tol), "{side} half of split({t:?}) of {c:?}: {ka} {p:?}, {kb} {q:?}");
            }
        }
        ctx.trans(4);
        ctx.outcome((x[0] as f64).to_bits());
    }
    for n in STEPS {
        if let (Some(x), Some(y)) = (a.arclen(n), b.arclen(n)) {
            need!(
                (x as f64 - y as f64).abs() <= REL * s * (n as f64 + 4.0),
                "arclen({n}) of {c:?}: {ka} {x:?}, {kb} {y:?}"
            );
            ctx.trans(2);
        }
    }
    ctx.trace();
    Ok(())
}

fn distances<const DIM: usize, A: Curve<DIM>, B: Curve<DIM>>(c: &[[R; DIM]], qs: &[[R; DIM]], exact_a: bool, ctx: &mut Ctx) -> Res {
    let a = A::build(c);
    let b = B::build(c);
    let cols = axes(c);
    // bound on the speed, for the search resolution
    let n = c.len() as f64 - 1.0;
    let speed = c
        .windows(2)
        .map(|w| {
            n * (0..DIM).map(|d| { let e = w[1][d] as f64 - w[0][d] as f64; e * e }).sum::<f64>().sqrt()
        })
        .fold(0.0, f64::max);
    for q in qs {
        let s2 = scale_of(c).max(scale_of(&[*q])).powi(2) * DIM as f64 + 1e-300;
        let tol2 = 16.0 * REL * s2;
        let (x, y) = (a.dist(*q) as f64, b.dist(*q) as f64);
        ctx.trans(2);
        let (ka, kb) = (A::kind(), B::kind());
        if exact_a {
            // the segment is exact, the generic curve searches
            // (and may take a very short segment for its start point)
            let least = if speed * speed < 4.0 * EPS { (x - speed).max(0.0) } else { x };
            need!(
                y * y >= least * least - tol2 && y <= x + speed / 4096.0 + tol2.sqrt(),
                "distance of {c:?} to {q:?}: {ka} {x:?}, {kb} {y:?}"
            );
            ctx.class("segment against search");
        } else if coarse_tie(&cols, &to64(*q), 4.0 * tol2) {
            need!(
                (x - y).abs() <= speed / 64.0 + tol2.sqrt(),
                "distance of {c:?} to {q:?}: {ka} {x:?}, {kb} {y:?}"
            );
            ctx.class("several nearest samples");
        } else {
            need!((x * x - y * y).abs() <= tol2, "distance of {c:?} to {q:?}: {ka} {x:?}, {kb} {y:?}");
            ctx.class("one nearest sample");
        }
    }
    Ok(())
}

fn line_case<const DIM: usize>(c: &[[R; DIM]], ts: &[R], qs: &[[R; DIM]], ctx: &mut Ctx) -> Res {
    pair::<DIM, LineSegment<Pt<DIM>>, Bezier<Pt<DIM>, 2>>(c, ts, ctx)?;
    distances::<DIM, LineSegment<Pt<DIM>>, Bezier<Pt<DIM>, 2>>(c, qs, true, ctx)?;
    let l = LineSegment::new(pt(c[0]), pt(c[1]));
    let g = <Bezier<Pt<DIM>, 2> as Curve<DIM>>::build(c);
    let tol = 2.0 * REL * scale_of(c);
    let (d1, d2) = (arr(l.derivative()), g.derivative());
    need!(same(d1, arr(d2.eval(0.5 as R)), tol), "derivative of {c:?}: line {d1:?}, generic {:?}", arr(d2.eval(0.5 as R)));
    let seg = BezierSegment::from(l);
    need!(matches!(seg, BezierSegment::Linear(_)), "a wrapped line changed its kind");
    need!(arr(seg.start()) == c[0] && arr(seg.end()) == c[1], "wrapped line {c:?}: start/end {:?}/{:?}", arr(seg.start()), arr(seg.end()));
    ends("baseline of the wrapped line", seg.baseline(), c)?;
    for tol in [0.0 as R, 1e-3, 1.0] {
        need!(seg.is_linear(tol), "wrapped line {c:?} is not linear at tolerance {tol}");
    }
    for &t in ts {
        need!(arr(seg.eval::<R>(t)) == arr(l.eval(t)) || same(arr(seg.eval::<R>(t)), arr(l.eval(t)), tol), "wrapped line {c:?} eval({t})");
        let (a, b) = seg.split(t);
        let (x, y) = l.split(t);
        match (a, b) {
            (BezierSegment::Linear(p), BezierSegment::Linear(q)) => {
                need!(
                    close(&p.ctrl(), &x.ctrl(), tol) && close(&q.ctrl(), &y.ctrl(), tol),
                    "wrapped line {c:?} split({t:?}): {:?} {:?}, line gives {:?} {:?}",
                    p.ctrl(), q.ctrl(), x.ctrl(), y.ctrl()
                );
            }
            _ => return Err(Violation(format!("split({t:?}) of a wrapped line {c:?} is not two lines"))),
        }
        #[cfg(target_pointer_width = "64")]
        {
            let f = t as f32;
            let (x, y) = l.split(f as R);
            match seg.split(f) {
                (BezierSegment::Linear(p), BezierSegment::Linear(q)) => {
                    need!(close(&p.ctrl(), &x.ctrl(), tol) && close(&q.ctrl(), &y.ctrl(), tol), "wrapped line {c:?} split({f:?} in single precision): {:?} {:?}, line gives {:?} {:?}", p.ctrl(), q.ctrl(), x.ctrl(), y.ctrl());
                }
                _ => return Err(Violation(format!("split({f:?}) of a wrapped line {c:?} is not two lines"))),
            }
        }
        ctx.trans(3);
    }
    ctx.trans(8);
    ctx.class("line");
    Ok(())
}

fn close<const DIM: usize>(a: &[[R; DIM]], b: &[[R; DIM]], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y, tol))
}

const TOLS: [f64; 10] = [0.0, 1e-9, 1e-3, 0.1, 0.49, 0.8, 1.1, 1.7, 3.1, 50.0];

macro_rules! curved {
    ($name:ident, $ty:ident, $n:literal, $variant:ident, $build:expr) => {
        fn $name<const DIM: usize>(c: &[[R; DIM]], ts: &[R], qs: &[[R; DIM]], ctx: &mut Ctx) -> Res {
            pair::<DIM, $ty<Pt<DIM>>, Bezier<Pt<DIM>, $n>>(c, ts, ctx)?;
            distances::<DIM, $ty<Pt<DIM>>, Bezier<Pt<DIM>, $n>>(c, qs, false, ctx)?;
            let s = <$ty<Pt<DIM>> as Curve<DIM>>::build(c);
            let g = <Bezier<Pt<DIM>, $n> as Curve<DIM>>::build(c);
            let tol = 2.0 * REL * scale_of(c);
            let dtol = 4.0 * $n as f64 * tol;
            let (ds, dg) = (s.derivative(), g.derivative());
            for &t in ts {
                let (x, y) = (arr(ds.eval(t)), arr(dg.eval(t)));
                need!(same(x, y, dtol), "derivative of {c:?} at {t:?}: {} {x:?}, generic {y:?}", stringify!($ty));
            }
            let seg = BezierSegment::from(s);
            match seg {
                BezierSegment::$variant(q) => need!(q.ctrl() == c, "wrapped {c:?} holds {:?}", q.ctrl()),
                _ => return Err(Violation(format!("wrapping {c:?} changed its kind"))),
            }
            need!(
                arr(seg.start()) == c[0] && arr(seg.end()) == c[c.len() - 1],
                "wrapped {c:?}: start/end {:?}/{:?}",
                arr(seg.start()),
                arr(seg.end())
            );
            ends("baseline", s.baseline(), c)?;
            ends("baseline of the wrapped curve", seg.baseline(), c)?;
            for tol in TOLS {
                need!(
                    seg.is_linear(tol as R) == s.is_linear(tol as R),
                    "is_linear({tol}) of {c:?}: wrapped {}, direct {}",
                    seg.is_linear(tol as R),
                    s.is_linear(tol as R)
                );
                ctx.class(if s.is_linear(tol as R) { "linear verdict" } else { "not-linear verdict" });
            }
            for &t in ts {
                let (x, y) = (arr(seg.eval::<R>(t)), arr(s.eval(t)));
                need!(same(x, y, tol), "wrapped {c:?} eval({t:?}) {x:?}, direct {y:?}");
                let (a, b) = seg.split(t);
                let (x, y) = s.split(t);
                match (a, b) {
                    (BezierSegment::$variant(p), BezierSegment::$variant(q)) => {
                        need!(
                            close(&p.ctrl(), &x.ctrl(), tol) && close(&q.ctrl(), &y.ctrl(), tol),
                            "wrapped {c:?} split({t:?}): {:?} {:?}, direct {:?} {:?}",
                            p.ctrl(), q.ctrl(), x.ctrl(), y.ctrl()
                        );
                    }
                    _ => return Err(Violation(format!("split({t:?}) of wrapped {c:?} changes the kind"))),
                }
                // the wrapper takes parameters and tolerances of other float types
                #[cfg(target_pointer_width = "64")]
                {
                    let f = t as f32;
                    let (a, b) = seg.split(f);
                    let (x, y) = s.split(f as R);
                    match (a, b) {
                        (BezierSegment::$variant(p), BezierSegment::$variant(q)) => {
                            need!(close(&p.ctrl(), &x.ctrl(), tol) && close(&q.ctrl(), &y.ctrl(), tol), "wrapped {c:?} split({f:?} in single precision): {:?} {:?}, direct {:?} {:?}", p.ctrl(), q.ctrl(), x.ctrl(), y.ctrl());
                        }
                        _ => return Err(Violation(format!("split({f:?}) of wrapped {c:?} changes the kind"))),
                    }
                    need!(seg.is_linear(f) == s.is_linear(f as R), "is_linear({f:?} in single precision) of {c:?}: wrapped {}, direct {}", seg.is_linear(f), s.is_linear(f as R));
                    need!(arr(seg.eval::<f32>(t)) == arr(seg.eval::<R>(t)) && arr(seg.eval::<()>(t)) == arr(seg.eval::<R>(t)), "wrapped {c:?} eval({t:?}) depends on a type it does not use");
                    ctx.trans(4);
                }
                ctx.trans(4);
            }
            ctx.trans(8 + 2 * TOLS.len() as u64);
            ctx.class(stringify!($ty));
            Ok(())
        }
    };
}
curved!(quad_case, QuadraticBezier, 3, Quadratic, ());
curved!(cubic_case, CubicBezier, 4, Cubic, ());

fn queries<const DIM: usize>() -> Vec<[R; DIM]> {
    let base: [[f64; 4]; 5] = [[0.3, 0.2, -0.4, 0.1], [1.7, -0.9, 0.6, 2.2], [-2.1, 3.3, 0.25, -1.0], [0.0, 0.0, 0.0, 0.0], [40.0, -30.0, 11.0, 7.0]];
    base.iter()
        .map(|b| {
            let mut q = [0.0 as R; DIM];
            for d in 0..DIM {
                q[d] = b[d % 4] as R;
            }
            q
        })
        .collect()
}

fn space<const DIM: usize>(
    v: &mut Vec<Suite>,
    name: &str,
    n: usize,
    al: Vec<R>,
    full: bool,
    ts: Vec<R>,
    case: fn(&[[R; DIM]], &[R], &[[R; DIM]], &mut Ctx) -> Res,
) {
    space_of(v, name, n, Space::new(al, full), ts, case)
}
fn space_of<const DIM: usize>(
    v: &mut Vec<Suite>,
    name: &str,
    n: usize,
    sp: Space,
    ts: Vec<R>,
    case: fn(&[[R; DIM]], &[R], &[[R; DIM]], &mut Ctx) -> Res,
) {
    let qs = queries::<DIM>();
    v.push(suite(
        format!("{name}-{DIM}d-{}", sp.tag()),
        format!("{}; {} parameters, {} queries, steps {STEPS:?}", sp.what(n, DIM), ts.len(), qs.len()),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, s) = sp.get::<DIM>(i, n);
            ctx.sample(|| format!("{c:?}"));
            let qs: Vec<[R; DIM]> = qs.iter().map(|q| q.map(|x| x * s)).collect();
            case(&c, &ts, &qs, ctx)
        },
    ));
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let ts: Vec<R> = vec![0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 1.0 / 3.0, 0.71, 1e-3, 0.999];
    let dense = || params_fine(64);
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let mut v = vec![];
    space::<1>(&mut v, "line", 2, a(5, 16, 16), true, dense(), line_case::<1>);
    space::<2>(&mut v, "line", 2, a(3, 8, 14), true, ts.clone(), line_case::<2>);
    space::<3>(&mut v, "line", 2, a(2, 4, 6), true, ts.clone(), line_case::<3>);
    space::<4>(&mut v, "line", 2, a(2, 3, 4), true, ts.clone(), line_case::<4>);
    space::<1>(&mut v, "quadratic", 3, a(4, 12, 16), true, ts.clone(), quad_case::<1>);
    space::<1>(&mut v, "quadratic-dense", 3, a(2, 5, 8), true, dense(), quad_case::<1>);
    space::<2>(&mut v, "quadratic", 3, a(2, 4, 6), true, ts.clone(), quad_case::<2>);
    space::<3>(&mut v, "quadratic", 3, a(3, 14, 16), false, ts.clone(), quad_case::<3>);
    space::<4>(&mut v, "quadratic", 3, a(3, 10, 16), false, ts.clone(), quad_case::<4>);
    space::<6>(&mut v, "quadratic", 3, a(3, 8, 16), false, ts.clone(), quad_case::<6>);
    space::<1>(&mut v, "cubic", 4, a(3, 8, 14), true, ts.clone(), cubic_case::<1>);
    space::<1>(&mut v, "cubic-dense", 4, a(2, 4, 6), true, dense(), cubic_case::<1>);
    space::<2>(&mut v, "cubic", 4, a(2, 3, 4), true, ts.clone(), cubic_case::<2>);
    space::<3>(&mut v, "cubic", 4, a(2, 7, 14), false, ts.clone(), cubic_case::<3>);
    space::<4>(&mut v, "cubic", 4, a(2, 6, 12), false, ts.clone(), cubic_case::<4>);
    space::<6>(&mut v, "cubic", 4, a(2, 5, 10), false, ts.clone(), cubic_case::<6>);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    space_of::<1>(&mut v, "line", 2, s(3, 6, 8), ts.clone(), line_case::<1>);
    space_of::<2>(&mut v, "line", 2, s(2, 3, 4), ts.clone(), line_case::<2>);
    space_of::<1>(&mut v, "quadratic", 3, s(3, 5, 6), ts.clone(), quad_case::<1>);
    space_of::<2>(&mut v, "quadratic", 3, s(2, 2, 3), ts.clone(), quad_case::<2>);
    space_of::<1>(&mut v, "cubic", 4, s(2, 4, 4), ts.clone(), cubic_case::<1>);
    space_of::<2>(&mut v, "cubic", 4, s(2, 2, 2), ts.clone(), cubic_case::<2>);
    macro_rules! special {
        ($($d:literal)*) => { $(
            space_of::<$d>(&mut v, "line", 2, Space::points(npoints(tier, 2)), ts.clone(), line_case::<$d>);
            space_of::<$d>(&mut v, "quadratic", 3, Space::points(npoints(tier, 3)), ts.clone(), quad_case::<$d>);
            space_of::<$d>(&mut v, "cubic", 4, Space::points(npoints(tier, 5)), ts.clone(), cubic_case::<$d>);
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    for s in v.iter_mut() {
        if s.name.starts_with("cubic") || s.name.starts_with("quad") {
            s.must = vec!["linear verdict", "not-linear verdict", "one nearest sample"];
        } else {
            s.must = vec!["segment against search", "line"];
        }
    }
    v
}
