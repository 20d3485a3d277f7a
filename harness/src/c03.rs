//! C03: splitting re-traces the curve, through any history of splits.
//! Breadth-first over histories: a state is a real curve object together with the interval of the
//! original curve's parameter it must trace.
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;
use crate::shapes::*;
use std::collections::HashSet;
use std::sync::Arc;
use stroke::bezier_segment::BezierSegment;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

/// The enum as one more curve kind (pieces must keep their kind).
#[derive(Clone)]
pub struct Wrapped<C, const DIM: usize>(BezierSegment<Pt<DIM>>, std::marker::PhantomData<C>);

macro_rules! wrapped {
    ($ty:ident, $variant:ident) => {
        impl<const DIM: usize> Curve<DIM> for Wrapped<$ty<Pt<DIM>>, DIM> {
            const N: usize = <$ty<Pt<DIM>> as Curve<DIM>>::N;
            fn kind() -> &'static str {
                concat!("wrapped ", stringify!($ty))
            }
            fn build(c: &[[R; DIM]]) -> Self {
                Wrapped(BezierSegment::from(<$ty<Pt<DIM>> as Curve<DIM>>::build(c)), std::marker::PhantomData)
            }
            fn ctrl(&self) -> Vec<[R; DIM]> {
                match &self.0 {
                    BezierSegment::$variant(s) => s.ctrl(),
                    _ => vec![],
                }
            }
            fn eval(&self, t: R) -> [R; DIM] {
                arr(self.0.eval::<R>(t))
            }
            fn evals(&self, t: R, f: &mut dyn FnMut(&'static str, [R; DIM])) {
                f("BezierSegment::eval", self.eval(t))
            }
            fn split(&self, t: R) -> (Self, Self) {
                let (a, b) = self.0.split(t);
                (Wrapped(a, std::marker::PhantomData), Wrapped(b, std::marker::PhantomData))
            }
            fn arclen(&self, _n: usize) -> Option<R> {
                None
            }
            fn dist(&self, _p: [R; DIM]) -> R {
                0.0
            }
        }
    };
}
wrapped!(LineSegment, Linear);
wrapped!(QuadraticBezier, Quadratic);
wrapped!(CubicBezier, Cubic);

/// Parameters of a piece at which it is compared with the original curve.
const SPOTS: [f64; 4] = [0.0, 1.0, 0.37, 0.71];

struct State<C> {
    curve: C,
    a: DD,
    b: DD,
    path: Vec<(R, bool)>,
}

fn check_piece<const DIM: usize, C: Curve<DIM>>(
    st: &State<C>,
    c: &[[R; DIM]],
    cols: &[Vec<f64>],
    scale: f64,
    ctx: &mut Ctx,
) -> Res {
    let n = C::N;
    let tol = REL * scale * (st.path.len() as f64 + 1.0);
    let ctrl = st.curve.ctrl();
    need!(ctrl.len() == n, "{} {c:?} after splits {:?}: piece has {} control points instead of {n} (kind changed)", C::kind(), st.path, ctrl.len());
    for s in SPOTS {
        let u = st.a + (st.b - st.a).scale(s as R as f64);
        let w = bern_weights(n - 1, u);
        let got = st.curve.eval(s as R);
        for d in 0..DIM {
            let want = dot(&w, &cols[d]);
            need!(
                near(got[d], want, tol),
                "{} {c:?} after splits {:?} (true = right half): piece at {s} has {:?} on axis {d}, parent at {:?} has {:?}",
                C::kind(), st.path, got[d], u.f(), want.f()
            );
        }
        ctx.outcome((got[0] as f64).to_bits());
    }
    ctx.trans(SPOTS.len() as u64);
    // interpolating end control points
    for (e, u) in [(ctrl[0], st.a), (ctrl[n - 1], st.b)] {
        let w = bern_weights(n - 1, u);
        for d in 0..DIM {
            need!(
                near(e[d], dot(&w, &cols[d]), tol),
                "{} {c:?} after splits {:?}: an end control point is {:?}, parent at {:?} has {:?} (axis {d})",
                C::kind(), st.path, e, u.f(), dot(&w, &cols[d]).f()
            );
        }
    }
    Ok(())
}

fn explore<const DIM: usize, C: Curve<DIM>>(c: &[[R; DIM]], ts: &[R], depth: usize, ctx: &mut Ctx) -> Res {
    let cols = axes(c);
    let scale = scale_of(c);
    let mut level = vec![State { curve: C::build(c), a: ZERO, b: ONE, path: vec![] }];
    let mut seen: HashSet<(Vec<u64>, u64, u64)> = HashSet::new();
    ctx.state();
    check_piece(&level[0], c, &cols, scale, ctx)?;
    for _ in 0..depth {
        let mut next = vec![];
        for st in &level {
            let parent = st.curve.ctrl();
            for &t in ts {
                let (l, r) = st.curve.split(t);
                ctx.trans(1);
                let td = dd(t as f64);
                let m = st.a + (st.b - st.a) * td;
                let tol = REL * scale * (st.path.len() as f64 + 2.0);
                let (lc, rc) = (l.ctrl(), r.ctrl());
                need!(
                    lc.len() == C::N && rc.len() == C::N,
                    "{} {c:?} after splits {:?}: split({t:?}) changes the kind",
                    C::kind(), st.path
                );
                need!(
                    same(lc[C::N - 1], rc[0], tol),
                    "{} {c:?} after splits {:?}: halves of split({t:?}) do not meet: {:?} / {:?}",
                    C::kind(), st.path, lc, rc
                );
                need!(
                    same(lc[0], parent[0], tol) && same(rc[C::N - 1], parent[C::N - 1], tol),
                    "{} {c:?} after splits {:?}: split({t:?}) moves an outer end point: {:?} / {:?} of {:?}",
                    C::kind(), st.path, lc, rc, parent
                );
                for (right, curve, a, b) in [(false, l, st.a, m), (true, r, m, st.b)] {
                    let key = (
                        curve.ctrl().iter().flatten().map(|x| (*x as f64).to_bits()).collect::<Vec<_>>(),
                        a.f().to_bits(),
                        b.f().to_bits(),
                    );
                    let mut path = st.path.clone();
                    path.push((t, right));
                    let s = State { curve, a, b, path };
                    // a state with the same control points and interval has the same futures
                    if !seen.insert(key) {
                        continue;
                    }
                    ctx.state();
                    check_piece(&s, c, &cols, scale, ctx)?;
                    ctx.trace();
                    ctx.class(if right { "right piece" } else { "left piece" });
                    next.push(s);
                }
            }
        }
        level = next;
    }
    ctx.sample(|| format!("{} {:?}: {} piece states to depth {depth}", C::kind(), c, seen.len() + 1));
    Ok(())
}

fn sp<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, al: Vec<R>, full: bool, ts: Arc<Vec<R>>, depth: usize) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full), ts, depth)
}
fn sps<const DIM: usize, C: Curve<DIM> + 'static>(name: &str, sp: Space, ts: Arc<Vec<R>>, depth: usize) -> Suite {
    let n = C::N;
    suite(
        format!("{name}-N{n}-{DIM}d-d{depth}-{}", sp.tag()),
        format!("{}; all split histories of length <= {depth} over {} split parameters and both sides", sp.what(n, DIM), ts.len()),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            explore::<DIM, C>(&c, &ts, depth, ctx)
        },
    )
    .must(&["left piece", "right piece"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let ts: Arc<Vec<R>> = Arc::new(vec![0.0, 1.0, 0.5, 0.125, 0.3, 2.0 / 3.0, 0.9]);
    let tl: Arc<Vec<R>> = Arc::new(vec![0.0, 1.0, 0.5, 0.2, 1e-6, 1.0 - 1e-6, 0.8, 0.35, 0.47, 0.999, 0.01]);
    let dense: Arc<Vec<R>> = Arc::new(params_fine(tier.pick(32, 256, 4096)));
    let deep: Arc<Vec<R>> = Arc::new(vec![0.5, 0.25, 0.9]);
    let a = |s: usize, q: usize, t: usize| alpha(tier.pick(s, q, t));
    let d = tier.pick(2, 3, 4);
    let mut v = vec![
        sp::<1, LineSegment<Pt<1>>>("line", a(4, 10, 12), true, ts.clone(), d),
        sp::<1, QuadraticBezier<Pt<1>>>("quadratic", a(3, 7, 8), true, ts.clone(), d),
        sp::<1, CubicBezier<Pt<1>>>("cubic", a(2, 4, 5), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 1>>("generic", a(5, 10, 10), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 2>>("generic", a(3, 9, 10), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 3>>("generic", a(2, 6, 7), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 4>>("generic", a(2, 4, 5), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 5>>("generic", a(2, 3, 3), true, ts.clone(), d),
        sp::<1, Bezier<Pt<1>, 6>>("generic", a(2, 3, 3), true, ts.clone(), tier.pick(2, 3, 3)),
        sp::<1, Bezier<Pt<1>, 7>>("generic", a(2, 2, 3), true, ts.clone(), tier.pick(2, 3, 3)),
        sp::<1, Bezier<Pt<1>, 8>>("generic", a(2, 2, 2), true, ts.clone(), tier.pick(2, 3, 3)),
        sp::<1, Wrapped<LineSegment<Pt<1>>, 1>>("wrapped-line", a(3, 6, 10), true, ts.clone(), d),
        sp::<1, Wrapped<QuadraticBezier<Pt<1>>, 1>>("wrapped-quadratic", a(3, 4, 6), true, ts.clone(), d),
        sp::<1, Wrapped<CubicBezier<Pt<1>>, 1>>("wrapped-cubic", a(2, 3, 4), true, ts.clone(), d),
        sp::<2, LineSegment<Pt<2>>>("line", a(2, 4, 6), true, ts.clone(), 2),
        sp::<2, QuadraticBezier<Pt<2>>>("quadratic", a(2, 3, 4), true, tl.clone(), tier.pick(1, 2, 2)),
        sp::<2, CubicBezier<Pt<2>>>("cubic", a(2, 2, 3), true, tl.clone(), tier.pick(1, 2, 2)),
        sp::<2, Bezier<Pt<2>, 4>>("generic", a(2, 2, 3), true, tl.clone(), tier.pick(1, 2, 2)),
        sp::<3, LineSegment<Pt<3>>>("line", a(2, 8, 12), false, tl.clone(), 2),
        sp::<3, QuadraticBezier<Pt<3>>>("quadratic", a(2, 6, 10), false, tl.clone(), 2),
        sp::<3, CubicBezier<Pt<3>>>("cubic", a(2, 4, 6), false, tl.clone(), 2),
        sp::<3, Bezier<Pt<3>, 5>>("generic", a(2, 3, 4), false, tl.clone(), 2),
        sp::<3, Wrapped<CubicBezier<Pt<3>>, 3>>("wrapped-cubic", a(2, 4, 6), false, tl.clone(), 2),
        sp::<5, LineSegment<Pt<5>>>("line", a(2, 8, 10), false, tl.clone(), 2),
        sp::<5, QuadraticBezier<Pt<5>>>("quadratic", a(2, 5, 8), false, tl.clone(), 2),
        sp::<5, CubicBezier<Pt<5>>>("cubic", a(2, 4, 6), false, tl.clone(), 2),
        sp::<5, Bezier<Pt<5>, 4>>("generic", a(2, 4, 6), false, tl.clone(), 2),
        sp::<8, Bezier<Pt<8>, 6>>("generic", a(2, 2, 3), false, tl, 2),
    ];
    macro_rules! dense {
        ($($n:literal)*) => { $( v.push(sp::<1, Bezier<Pt<1>, $n>>("generic-dense", a(2, if $n < 6 { 3 } else { 2 }, 3), true, dense.clone(), 1)); )* };
    }
    v.push(sp::<1, LineSegment<Pt<1>>>("line-dense", a(3, 8, 12), true, dense.clone(), 1));
    v.push(sp::<1, QuadraticBezier<Pt<1>>>("quadratic-dense", a(2, 5, 6), true, dense.clone(), 1));
    v.push(sp::<1, CubicBezier<Pt<1>>>("cubic-dense", a(2, 4, 5), true, dense.clone(), 1));
    dense!(1 2 3 4 5 6 7 8);
    let coarse: Arc<Vec<R>> = Arc::new(params_small());
    macro_rules! long {
        ($($n:literal)*) => { $( v.push(sps::<2, Bezier<Pt<2>, $n>>("generic-long", Space::patterns(), coarse.clone(), tier.pick(1, 1, 2))); )* };
    }
    long!(6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 48 64);
    v.push(sps::<3, Bezier<Pt<3>, 9>>("generic-long-dense", Space::patterns(), dense.clone(), 1));
    v.push(sps::<3, Bezier<Pt<3>, 12>>("generic-long-dense", Space::patterns(), dense.clone(), 1));
    v.push(sps::<3, Bezier<Pt<3>, 16>>("generic-long-dense", Space::patterns(), dense.clone(), 1));

    let few: Arc<Vec<R>> = Arc::new(vec![0.0, 1.0, 0.5, 0.3, 0.9]);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(sps::<1, LineSegment<Pt<1>>>("line", s(3, 6, 8), few.clone(), 2));
    v.push(sps::<1, QuadraticBezier<Pt<1>>>("quadratic", s(2, 4, 5), few.clone(), 2));
    v.push(sps::<1, CubicBezier<Pt<1>>>("cubic", s(2, 3, 4), few.clone(), 2));
    v.push(sps::<1, Bezier<Pt<1>, 2>>("generic", s(2, 4, 6), few.clone(), 2));
    v.push(sps::<1, Bezier<Pt<1>, 4>>("generic", s(2, 2, 4), few.clone(), 2));
    v.push(sps::<1, Bezier<Pt<1>, 6>>("generic", s(2, 2, 3), few.clone(), 1));
    v.push(sps::<2, LineSegment<Pt<2>>>("line", s(2, 3, 4), few.clone(), 2));
    v.push(sps::<2, CubicBezier<Pt<2>>>("cubic", s(2, 2, 2), few.clone(), 1));
    v.push(sps::<1, Wrapped<CubicBezier<Pt<1>>, 1>>("wrapped-cubic", s(2, 2, 3), few.clone(), 1));
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, LineSegment<Pt<$d>>>("line", Space::points(npoints(tier, 2)), few.clone(), 2));
            v.push(sps::<$d, QuadraticBezier<Pt<$d>>>("quadratic", Space::points(npoints(tier, 4)), few.clone(), 1));
            v.push(sps::<$d, CubicBezier<Pt<$d>>>("cubic", Space::points(npoints(tier, 5)), few.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 1>>("generic", Space::points(npoints(tier, 2)), few.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 2>>("generic", Space::points(npoints(tier, 3)), few.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 3>>("generic", Space::points(npoints(tier, 4)), few.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 4>>("generic", Space::points(npoints(tier, 5)), few.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 5>>("generic", Space::points(npoints(tier, 6)), few.clone(), 1));
            v.push(sps::<$d, Wrapped<CubicBezier<Pt<$d>>, $d>>("wrapped-cubic", Space::points(npoints(tier, 6)), few.clone(), 1));
            v.push(sps::<$d, Wrapped<QuadraticBezier<Pt<$d>>, $d>>("wrapped-quadratic", Space::points(npoints(tier, 5)), few.clone(), 1));
            v.push(sps::<$d, Wrapped<LineSegment<Pt<$d>>, $d>>("wrapped-line", Space::points(npoints(tier, 3)), few.clone(), 1));
        )* };
    }
    special!(2 3 4 5 6 7 8 9);
    let dd = tier.pick(4, 6, 8);
    v.push(sp::<1, LineSegment<Pt<1>>>("line-deep", a(2, 3, 4), true, deep.clone(), dd));
    v.push(sp::<1, QuadraticBezier<Pt<1>>>("quadratic-deep", a(2, 2, 3), true, deep.clone(), dd.min(7)));
    v.push(sp::<1, CubicBezier<Pt<1>>>("cubic-deep", a(2, 2, 2), true, deep.clone(), dd.min(7)));
    v.push(sp::<1, Bezier<Pt<1>, 5>>("generic-deep", a(2, 2, 2), true, deep, dd.min(7)));
    v
}
