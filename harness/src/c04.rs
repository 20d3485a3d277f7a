//! C04: derivatives are exact, at every order, also of pieces.
//! Breadth-first over chains of derivative() and split(): a state is a real object that must equal
//! F * P^(r)(a + w s) for the original polynomial P.
use crate::core::*;
use crate::dd::*;
use crate::model::*;
use crate::need;
use crate::shapes::*;
use stroke::{Bezier, CubicBezier, LineSegment, QuadraticBezier};

pub struct Origin<'a, const DIM: usize> {
    ctrl: &'a [[R; DIM]],
    /// Bernstein coefficients of every derivative, per axis
    der: Vec<Vec<Vec<DD>>>,
    scale: f64,
    spots: &'a [R],
    splits: &'a [R],
}
#[derive(Clone)]
pub struct St {
    f: DD,
    a: DD,
    w: DD,
    r: usize,
    nsplit: usize,
    path: Vec<String>,
}
impl<'a, const DIM: usize> Origin<'a, DIM> {
    fn new(ctrl: &'a [[R; DIM]], spots: &'a [R], splits: &'a [R]) -> Self {
        let cols = axes(ctrl);
        let der = (0..ctrl.len())
            .map(|r| cols.iter().map(|c| bern_deriv(&c.iter().map(|x| dd(*x)).collect::<Vec<_>>(), r)).collect())
            .collect();
        Origin { ctrl, der, scale: scale_of(ctrl), spots, splits }
    }
    fn value(&self, st: &St, s: R, d: usize) -> DD {
        st.f * bern(&self.der[st.r][d], st.a + st.w * dd(s as f64))
    }
    /// derivative with respect to the object's own parameter
    fn slope(&self, st: &St, s: R, d: usize) -> DD {
        if st.r + 1 >= self.der.len() {
            return ZERO;
        }
        st.f * st.w * bern(&self.der[st.r + 1][d], st.a + st.w * dd(s as f64))
    }
    fn tol(&self, st: &St, extra: usize) -> f64 {
        let n = self.ctrl.len() as f64;
        let mut m = 1.0;
        for k in 0..st.r + extra {
            m *= 2.0 * (n - k as f64).max(1.0);
        }
        4.0 * REL * self.scale * m * (st.path.len() as f64 + 1.0)
    }
}

pub trait Chain<const DIM: usize>: Sized {
    fn at(&self, s: R) -> [R; DIM];
    fn splits(&self, _t: R) -> Option<(Self, Self)> {
        None
    }
    /// per-axis derivative sample, where the type offers one
    fn direct(&self, _s: R, _axis: usize) -> Option<R> {
        None
    }
    fn follow(&self, _o: &Origin<DIM>, _st: &St, _bound: usize, _ctx: &mut Ctx) -> Res {
        Ok(())
    }
}

fn visit<const DIM: usize, T: Chain<DIM>>(x: &T, o: &Origin<DIM>, st: &St, bound: usize, ctx: &mut Ctx) -> Res {
    // control values grow by up to 2(N-1) per order: stop where they may leave the range of the scalar
    if o.tol(st, 1) / REL * 16.0 > R::MAX as f64 {
        ctx.class("out of range");
        return Ok(());
    }
    ctx.state();
    for &s in o.spots {
        let got = x.at(s);
        for d in 0..DIM {
            let want = o.value(st, s, d);
            need!(
                near(got[d], want, o.tol(st, 0)),
                "{:?} after {:?}: at {s:?} axis {d} is {:?}, the derivative of order {} there is {:?}",
                o.ctrl, st.path, got[d], st.r, want.f()
            );
            if let Some(g) = x.direct(s, d) {
                let want = o.slope(st, s, d);
                need!(
                    near(g, want, o.tol(st, 1)),
                    "{:?} after {:?}: dd({s:?}, {d}) is {g:?}, the derivative there is {:?}",
                    o.ctrl, st.path, want.f()
                );
                ctx.trans(1);
                ctx.class("direct derivative sample");
            }
        }
        ctx.trans(1);
        ctx.outcome((got[0] as f64).to_bits());
    }
    ctx.trace();
    x.follow(o, st, bound, ctx)?;
    if st.nsplit < bound {
        for &t in o.splits {
            if let Some((l, r)) = x.splits(t) {
                ctx.trans(1);
                let td = dd(t as f64);
                let mut s = st.clone();
                s.nsplit += 1;
                s.path.push(format!("left of split {t}"));
                s.w = st.w * td;
                visit(&l, o, &s, bound, ctx)?;
                let mut s = st.clone();
                s.nsplit += 1;
                s.path.push(format!("right of split {t}"));
                s.a = st.a + st.w * td;
                s.w = st.w * (ONE - td);
                visit(&r, o, &s, bound, ctx)?;
            }
        }
    }
    Ok(())
}

fn derived(st: &St) -> St {
    let mut s = st.clone();
    s.f = st.f * st.w;
    s.r += 1;
    s.path.push("derivative".into());
    s
}

impl<const DIM: usize> Chain<DIM> for Pt<DIM> {
    fn at(&self, _s: R) -> [R; DIM] {
        arr(*self)
    }
}
impl<const DIM: usize> Chain<DIM> for LineSegment<Pt<DIM>> {
    fn at(&self, s: R) -> [R; DIM] {
        arr(LineSegment::eval(self, s))
    }
    fn splits(&self, t: R) -> Option<(Self, Self)> {
        Some(LineSegment::split(self, t))
    }
    fn follow(&self, o: &Origin<DIM>, st: &St, bound: usize, ctx: &mut Ctx) -> Res {
        ctx.class("derivative of a line");
        visit(&self.derivative(), o, &derived(st), bound, ctx)
    }
}
macro_rules! special {
    ($ty:ident) => {
        impl<const DIM: usize> Chain<DIM> for $ty<Pt<DIM>> {
            fn at(&self, s: R) -> [R; DIM] {
                arr($ty::eval(self, s))
            }
            fn splits(&self, t: R) -> Option<(Self, Self)> {
                Some($ty::split(self, t))
            }
            fn direct(&self, s: R, axis: usize) -> Option<R> {
                Some(self.dd(s, axis))
            }
            fn follow(&self, o: &Origin<DIM>, st: &St, bound: usize, ctx: &mut Ctx) -> Res {
                visit(&self.derivative(), o, &derived(st), bound, ctx)
            }
        }
    };
}
special!(QuadraticBezier);
special!(CubicBezier);
impl<const DIM: usize> Chain<DIM> for Bezier<Pt<DIM>, 1> {
    fn at(&self, s: R) -> [R; DIM] {
        arr(Bezier::eval(self, s))
    }
    fn splits(&self, t: R) -> Option<(Self, Self)> {
        Some(Bezier::split(self, t))
    }
}
macro_rules! generic {
    ($($n:literal)*) => { $(
        impl<const DIM: usize> Chain<DIM> for Bezier<Pt<DIM>, $n> {
            fn at(&self, s: R) -> [R; DIM] {
                arr(Bezier::eval(self, s))
            }
            fn splits(&self, t: R) -> Option<(Self, Self)> {
                Some(Bezier::split(self, t))
            }
            fn follow(&self, o: &Origin<DIM>, st: &St, bound: usize, ctx: &mut Ctx) -> Res {
                ctx.class("derivative of a generic curve");
                let x: Bezier<Pt<DIM>, { $n - 1 }> = self.derivative();
                visit(&x, o, &derived(st), bound, ctx)
            }
        }
    )* };
}
generic!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33);
// 33! does not fit into single precision
#[cfg(target_pointer_width = "64")]
generic!(34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
fn sp<const DIM: usize, C: Curve<DIM> + Chain<DIM> + 'static>(
    name: &str,
    al: Vec<R>,
    full: bool,
    spots: Vec<R>,
    splits: Vec<R>,
    bound: usize,
) -> Suite {
    sps::<DIM, C>(name, Space::new(al, full), spots, splits, bound)
}
fn sps<const DIM: usize, C: Curve<DIM> + Chain<DIM> + 'static>(name: &str, sp: Space, spots: Vec<R>, splits: Vec<R>, bound: usize) -> Suite {
    let n = C::N;
    suite(
        format!("{name}-N{n}-{DIM}d-s{bound}-{}", sp.tag()),
        format!(
            "{}; all chains of derivative (to order {}) and up to {bound} splits at {splits:?}, each state compared at {} parameters",
            sp.what(n, DIM),
            n - 1,
            spots.len()
        ),
        sp.total::<DIM>(n),
        move |i, ctx| {
            let (c, _) = sp.get::<DIM>(i, n);
            let o = Origin::new(&c, &spots, &splits);
            ctx.sample(|| format!("{} {c:?}", C::kind()));
            visit(&C::build(&c), &o, &St { f: ONE, a: ZERO, w: ONE, r: 0, nsplit: 0, path: vec![] }, bound, ctx)
        },
    )
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let spots: Vec<R> = vec![0.0, 1.0, 0.5, 0.25, 0.9, 1.0 / 3.0, 0.01];
    let few: Vec<R> = vec![0.0, 1.0, 0.4];
    let dense = params_fine(tier.pick(16, 128, 1024));
    let splits: Vec<R> = vec![0.5, 0.25, 0.9, 1.0, 0.0];
    let a = |s: usize, q: usize, t: usize| alpha(tier.pick(s, q, t));
    let b = tier.pick(1, 2, 3);
    let direct: &[&'static str] = &["direct derivative sample"];
    let mut v = vec![
        sp::<1, LineSegment<Pt<1>>>("line", a(5, 14, 16), true, spots.clone(), splits.clone(), b).must(&["derivative of a line"]),
        sp::<1, QuadraticBezier<Pt<1>>>("quadratic", a(4, 10, 12), true, spots.clone(), splits.clone(), b).must(direct),
        sp::<1, CubicBezier<Pt<1>>>("cubic", a(3, 7, 8), true, spots.clone(), splits.clone(), b).must(direct),
        sp::<1, QuadraticBezier<Pt<1>>>("quadratic-dense", a(3, 8, 12), true, dense.clone(), vec![], 0).must(direct),
        sp::<1, CubicBezier<Pt<1>>>("cubic-dense", a(2, 5, 7), true, dense.clone(), vec![], 0).must(direct),
        sp::<1, QuadraticBezier<Pt<1>>>("quadratic-wide", a(5, 16, 16), true, spots.clone(), vec![], 0).must(direct),
        sp::<1, CubicBezier<Pt<1>>>("cubic-wide", a(3, 12, 16), true, spots.clone(), vec![], 0).must(direct),
        sp::<1, Bezier<Pt<1>, 2>>("generic", a(4, 12, 16), true, spots.clone(), splits.clone(), b),
        sp::<1, Bezier<Pt<1>, 3>>("generic", a(3, 8, 10), true, spots.clone(), splits.clone(), b),
        sp::<1, Bezier<Pt<1>, 4>>("generic", a(2, 5, 6), true, few.clone(), splits.clone(), b),
        sp::<1, Bezier<Pt<1>, 5>>("generic", a(2, 3, 4), true, few.clone(), splits.clone(), tier.pick(1, 2, 2)),
        sp::<1, Bezier<Pt<1>, 6>>("generic", a(2, 3, 3), true, few.clone(), splits.clone(), tier.pick(1, 1, 2)),
        sp::<1, Bezier<Pt<1>, 7>>("generic", a(2, 2, 3), true, few.clone(), splits.clone(), 1),
        sp::<1, Bezier<Pt<1>, 8>>("generic", a(2, 2, 3), true, few.clone(), splits.clone(), 1),
        sp::<1, Bezier<Pt<1>, 9>>("generic", a(2, 2, 2), true, few.clone(), splits.clone(), 1),
        sp::<1, Bezier<Pt<1>, 10>>("generic", a(1, 2, 2), true, few.clone(), splits.clone(), 1),
        sp::<1, Bezier<Pt<1>, 13>>("generic", a(1, 2, 2), true, few.clone(), vec![], 0),
        sp::<1, Bezier<Pt<1>, 17>>("generic", a(1, 2, 2), true, few.clone(), vec![], 0),
    ];
    macro_rules! dims {
        ($($d:literal)*) => { $(
            v.push(sp::<$d, LineSegment<Pt<$d>>>("line", a(3, 8, 12), false, spots.clone(), splits.clone(), 1));
            v.push(sp::<$d, QuadraticBezier<Pt<$d>>>("quadratic", a(3, 6, 10), false, spots.clone(), splits.clone(), 1));
            v.push(sp::<$d, CubicBezier<Pt<$d>>>("cubic", a(2, 5, 7), false, spots.clone(), splits.clone(), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 3>>("generic", a(2, 5, 8), false, few.clone(), splits.clone(), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 4>>("generic", a(2, 4, 6), false, few.clone(), splits.clone(), 1));
            v.push(sp::<$d, Bezier<Pt<$d>, 6>>("generic", a(2, 2, 3), false, few.clone(), splits.clone(), 1));
        )* };
    }
    dims!(2 3 4 7);
    let s = |x: usize, q: usize, t: usize| Space::scaled(a(x, q, t), true);
    v.push(sps::<1, LineSegment<Pt<1>>>("line", s(3, 7, 8), few.clone(), splits.clone(), 1));
    v.push(sps::<1, QuadraticBezier<Pt<1>>>("quadratic", s(2, 5, 6), few.clone(), splits.clone(), 1));
    v.push(sps::<1, CubicBezier<Pt<1>>>("cubic", s(2, 4, 4), few.clone(), splits.clone(), 1));
    v.push(sps::<1, Bezier<Pt<1>, 3>>("generic", s(2, 4, 5), few.clone(), splits.clone(), 1));
    v.push(sps::<1, Bezier<Pt<1>, 5>>("generic", s(2, 2, 3), few.clone(), splits.clone(), 1));
    v.push(sps::<2, CubicBezier<Pt<2>>>("cubic", s(2, 2, 2), few.clone(), splits.clone(), 1));
    v.push(sp::<12, QuadraticBezier<Pt<12>>>("quadratic", a(2, 4, 6), false, few.clone(), splits.clone(), 1));
    v.push(sp::<12, CubicBezier<Pt<12>>>("cubic", a(2, 3, 4), false, few.clone(), splits.clone(), 1));
    v.push(sp::<12, Bezier<Pt<12>, 4>>("generic", a(2, 3, 4), false, few.clone(), splits.clone(), 1));
    v.push(sp::<2, QuadraticBezier<Pt<2>>>("quadratic", a(2, 4, 6), true, few.clone(), splits.clone(), 1));
    v.push(sp::<2, CubicBezier<Pt<2>>>("cubic", a(2, 3, 3), true, few.clone(), splits.clone(), 1));
    macro_rules! longs {
        ($($n:literal)*) => { $( v.push(sps::<2, Bezier<Pt<2>, $n>>("generic-long", Space::patterns(), spots.clone(), vec![0.5, 0.3], 1)); )* };
    }
    longs!(6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33);
    #[cfg(target_pointer_width = "64")]
    longs!(34 40 48 64);
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sps::<$d, LineSegment<Pt<$d>>>("line", Space::points(npoints(tier, 2)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, QuadraticBezier<Pt<$d>>>("quadratic", Space::points(npoints(tier, 4)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, CubicBezier<Pt<$d>>>("cubic", Space::points(npoints(tier, 5)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 2>>("generic", Space::points(npoints(tier, 3)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 3>>("generic", Space::points(npoints(tier, 4)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 4>>("generic", Space::points(npoints(tier, 5)), few.clone(), splits.clone(), 1));
            v.push(sps::<$d, Bezier<Pt<$d>, 5>>("generic", Space::points(npoints(tier, 6)), few.clone(), splits.clone(), 1));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9);
    v
}
