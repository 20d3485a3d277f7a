//! C09: is_linear and is_a_point against exact distances.
use crate::c08::seg_dist2;
use crate::core::*;
use crate::need;
use crate::shapes::*;
use stroke::bezier_segment::BezierSegment;
use stroke::{CubicBezier, LineSegment, QuadraticBezier};

const TOLS: [f64; 15] = [0.0, 1e-7, 1e-3, 0.05, 0.1, 0.3, 0.5, 0.72, 0.99, 1.01, 1.5, 2.0, 3.0, 10.0, 200.0];

pub trait Flat<const DIM: usize>: Curve<DIM> {
    /// direct and through the enum
    fn linear(&self, tol: R) -> Vec<bool>;
    fn point(&self, tol: R) -> bool;
}
macro_rules! flat {
    ($ty:ident) => {
        impl<const DIM: usize> Flat<DIM> for $ty<Pt<DIM>> {
            fn linear(&self, tol: R) -> Vec<bool> {
                vec![self.is_linear(tol), BezierSegment::from(*self).is_linear(tol)]
            }
            fn point(&self, tol: R) -> bool {
                self.is_a_point(tol)
            }
        }
    };
}
flat!(QuadraticBezier);
flat!(CubicBezier);

fn check<const DIM: usize, C: Flat<DIM>>(c: &[[R; DIM]], mag: f64, ctx: &mut Ctx) -> Res {
    let n = c.len();
    let curve = C::build(c);
    ctx.state();
    let s = scale_of(c);
    let margin = 64.0 * REL * s + 1e-300;
    let d = |i: usize, j: usize| (0..DIM).map(|k| (c[i][k] as f64 - c[j][k] as f64).powi(2)).sum::<f64>().sqrt();
    let chord = d(0, n - 1);
    let dev = (1..n - 1).map(|i| seg_dist2(&c[0], &c[n - 1], &c[i]).0.f().max(0.0).sqrt()).fold(0.0, f64::max);
    let pairwise = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| d(i, j)).fold(0.0, f64::max);
    let from_start = (1..n).map(|i| d(0, i)).fold(0.0, f64::max);
    // endpoints whose distance is about sqrt(EPS) or less count as coincident
    let root = EPS.sqrt();
    let coincide = if chord < 0.5 * root { Some(true) } else if chord > 4.0 * root { Some(false) } else { None };
    let mut prev_lin: Vec<bool> = vec![];
    let mut prev_pt = false;
    let mut tols: Vec<f64> = TOLS.iter().map(|t| t * mag).collect();
    // tolerances right around the decision
    tols.extend([dev * 0.999, dev * 1.001, pairwise * 1.0001, from_start * 0.499, dev * 0.25]);
    tols.retain(|t| t.is_finite());
    tols.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for tol in tols {
        let rt = tol as R;
        let tol = rt as f64;
        let lin = curve.linear(rt);
        for (how, got) in [("direct", lin[0]), ("wrapped", lin[1])] {
            match coincide {
                Some(true) => {
                    need!(!got, "{} {c:?}: endpoints coincide, but is_linear({tol}) is true ({how})", C::kind());
                    ctx.class("coincident endpoints");
                }
                Some(false) => {
                    if dev <= tol - margin {
                        need!(got, "{} {c:?}: all inner control points are within {dev:?} of the baseline, but is_linear({tol}) is false ({how})", C::kind());
                        ctx.class("linear");
                    } else if dev > tol + margin {
                        need!(!got, "{} {c:?}: an inner control point is {dev:?} from the baseline, but is_linear({tol}) is true ({how})", C::kind());
                        ctx.class("not linear");
                    } else {
                        ctx.class("too close to call");
                    }
                }
                None => {}
            }
        }
        if !prev_lin.is_empty() {
            need!(lin.iter().zip(&prev_lin).all(|(n, p)| *n || !*p), "{} {c:?}: is_linear turned false when the tolerance grew to {tol}", C::kind());
        }
        prev_lin = lin;
        let p = curve.point(rt);
        if pairwise == 0.0 || pairwise <= tol - margin {
            need!(p, "{} {c:?}: control points within {pairwise:?} of each other, but is_a_point({tol}) is false", C::kind());
            ctx.class("a point");
        } else if from_start > 2.0 * tol + margin {
            need!(!p, "{} {c:?}: a control point is {from_start:?} from the start, but is_a_point({tol}) is true", C::kind());
            ctx.class("not a point");
        }
        need!(p || !prev_pt, "{} {c:?}: is_a_point turned false when the tolerance grew to {tol}", C::kind());
        prev_pt = p;
        ctx.trans(3);
        ctx.outcome((tol.to_bits() << 2) ^ ((prev_lin[0] as u64) << 1) ^ p as u64);
    }
    ctx.trace();
    ctx.sample(|| format!("{} {c:?}: deviation {dev:?}", C::kind()));
    Ok(())
}

fn sp<const DIM: usize, C: Flat<DIM> + 'static>(name: &str, al: Vec<R>, full: bool) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full))
}
fn sps<const DIM: usize, C: Flat<DIM> + 'static>(name: &str, sp: Space) -> Suite {
    let n = C::N;
    let must = sp.scales.len() == 1 && !matches!(sp.mode, Mode::Points(_));
    let s = suite(
        format!("{name}-{DIM}d-{}", sp.tag()),
        format!("{} x {} tolerances {TOLS:?} and around the decision", sp.what(n, DIM), TOLS.len() + 5),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, s) = sp.get::<DIM>(i, n);
            check::<DIM, C>(&c, s as f64, ctx)
        },
    );
    if !must {
        return s;
    }
    s.must(&["linear", "not linear", "coincident endpoints", "a point", "not a point"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let close: Vec<R> = [0.0, 1.0, 1.0 + 1e-3, 0.05, 1e-3, 0.95, 1e-9].iter().map(|x| *x as R).collect();
    let cl = |n: usize| close[..n].to_vec();
    type Q<const D: usize> = QuadraticBezier<Pt<D>>;
    type C<const D: usize> = CubicBezier<Pt<D>>;
    let mut v = vec![
        sp::<1, Q<1>>("quadratic", a(5, 14, 16), true),
        sp::<1, C<1>>("cubic", a(4, 8, 14), true),
        sp::<2, Q<2>>("quadratic", a(3, 5, 7), true),
        sp::<2, C<2>>("cubic", a(2, 4, 5), true),
        sp::<3, Q<3>>("quadratic", a(2, 3, 4), true),
        sp::<3, C<3>>("cubic", a(2, 3, 3), true),
        sp::<2, Q<2>>("quadratic-close", cl(tier.pick(3, 5, 7)), true),
        sp::<2, C<2>>("cubic-close", cl(tier.pick(2, 3, 5)), true),
        sp::<3, Q<3>>("quadratic-columns", a(5, 14, 16), false),
        sp::<3, C<3>>("cubic-columns", a(4, 10, 14), false),
        sp::<4, Q<4>>("quadratic-columns", a(5, 14, 16), false),
        sp::<4, C<4>>("cubic-columns", a(4, 9, 14), false),
        sp::<6, C<6>>("cubic-columns", a(4, 8, 14), false),
    ];
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(sps::<1, Q<1>>("quadratic", s(3, 7, 8)));
    v.push(sps::<1, C<1>>("cubic", s(2, 5, 6)));
    v.push(sps::<2, Q<2>>("quadratic", s(2, 3, 4)));
    v.push(sps::<2, C<2>>("cubic", s(2, 2, 3)));
    v.push(sp::<12, C<12>>("cubic-columns", a(4, 5, 8), false));
    v.push(sp::<12, Q<12>>("quadratic-columns", a(4, 7, 10), false));
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, Q<$d>>("quadratic", Space::points(npoints(tier, 3))));
            v.push(sps::<$d, C<$d>>("cubic", Space::points(npoints(tier, 4))));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    // a wrapped line is always linear
    let al = a(4, 8, 12);
    v.push(
        suite(
            format!("wrapped-line-2d-a{}", al.len()),
            format!("all segments over {al:?}, tolerances {TOLS:?}"),
            lattice_n::<2>(2, al.len()),
            move |i, ctx| {
                let c: Vec<[R; 2]> = lattice(i, 2, &al);
                ctx.state();
                for t in TOLS {
                    need!(
                        BezierSegment::from(LineSegment::new(pt(c[0]), pt(c[1]))).is_linear(t as R),
                        "wrapped line {c:?} is not linear at tolerance {t}"
                    );
                    ctx.trans(1);
                }
                ctx.trace();
                ctx.class("wrapped line");
                Ok(())
            },
        )
        .must(&["wrapped line"]),
    );
    v
}
