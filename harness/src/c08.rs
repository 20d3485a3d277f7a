//! C08: line segments: exact distance, sampling, derivative, bounds.
use crate::core::*;
use crate::dd::*;
use crate::need;
use crate::shapes::*;
use stroke::LineSegment;

/// Squared distance from q to the closed segment ab, and where the foot falls.
pub fn seg_dist2<const DIM: usize>(a: &[R; DIM], b: &[R; DIM], q: &[R; DIM]) -> (DD, &'static str) {
    let mut l2 = ZERO;
    let mut dt = ZERO;
    for d in 0..DIM {
        let u = dd(b[d] as f64) - dd(a[d] as f64);
        let v = dd(q[d] as f64) - dd(a[d] as f64);
        l2 = l2 + u * u;
        dt = dt + u * v;
    }
    let (t, class) = if l2.hi <= 0.0 {
        (ZERO, "degenerate segment")
    } else if dt.hi <= 0.0 {
        (ZERO, "foot before the start")
    } else if l2.lt(dt) || l2.f() == dt.f() {
        (ONE, "foot past the end")
    } else {
        (dt / l2, "foot inside")
    };
    let mut r = ZERO;
    for d in 0..DIM {
        let u = dd(b[d] as f64) - dd(a[d] as f64);
        let e = dd(q[d] as f64) - dd(a[d] as f64) - u * t;
        r = r + e * e;
    }
    (r, class)
}

fn check<const DIM: usize>(c: &[[R; DIM]], qs: &[[R; DIM]], ts: &[R], bbox: &dyn Fn(&LineSegment<Pt<DIM>>) -> Vec<(R, R)>, ctx: &mut Ctx) -> Res {
    let (a, b) = (c[0], c[1]);
    let l = LineSegment::new(pt(a), pt(b));
    ctx.state();
    let s = scale_of(c);
    for q in qs {
        let (want, class) = seg_dist2(&a, &b, q);
        let want = want.f().max(0.0).sqrt();
        let got = l.distance_to_point(pt(*q)) as f64;
        let sq = s.max(scale_of(&[*q]));
        // segments shorter than sqrt(EPS) may count as a point
        let tol = 16.0 * REL * sq + 2.0 * EPS.sqrt() * if seg_len2(&a, &b) < 2.0 * EPS { 1.0 } else { 0.0 };
        need!((got - want).abs() <= tol, "segment {a:?}-{b:?}, point {q:?} ({class}): distance {got:?} instead of {want:?}");
        ctx.class(class);
        ctx.outcome(got.to_bits());
    }
    ctx.trans(qs.len() as u64);
    let d = arr(l.derivative());
    let tol = REL * s;
    for k in 0..DIM {
        need!(near(d[k], dd(b[k] as f64) - dd(a[k] as f64), tol), "segment {a:?}-{b:?}: derivative {d:?}");
    }
    for &t in ts {
        let p = arr(l.eval(t));
        for k in 0..DIM {
            let want = dd(a[k] as f64) + (dd(b[k] as f64) - dd(a[k] as f64)) * dd(t as f64);
            need!(near(p[k], want, tol), "segment {a:?}-{b:?} at {t:?}: {p:?}, axis {k} should be {:?}", want.f());
            let x = l.axis(t, k);
            need!(near(x, want, tol), "segment {a:?}-{b:?}: axis({t:?}, {k}) = {x:?} instead of {:?}", want.f());
        }
        ctx.trans(1 + DIM as u64);
    }
    let bb = bbox(&l);
    for k in 0..DIM {
        need!(
            bb[k].0 == a[k].min(b[k]) && bb[k].1 == a[k].max(b[k]),
            "segment {a:?}-{b:?}: bounding box on axis {k} is {:?}",
            bb[k]
        );
    }
    ctx.trans(2);
    ctx.trace();
    ctx.sample(|| format!("{a:?}-{b:?}, {} query points", qs.len()));
    Ok(())
}
fn seg_len2<const DIM: usize>(a: &[R; DIM], b: &[R; DIM]) -> f64 {
    (0..DIM).map(|d| (a[d] as f64 - b[d] as f64).powi(2)).sum()
}

fn qgrid<const DIM: usize>(vals: &[f64]) -> Vec<[R; DIM]> {
    (0..ipow(vals.len(), DIM))
        .map(|i| {
            let mut dg = Digits(i);
            let mut p = [0.0 as R; DIM];
            for x in p.iter_mut() {
                *x = vals[dg.take(vals.len())] as R;
            }
            p
        })
        .collect()
}

/// Points at given positions along the segment, moved sideways along one axis.
fn along<const DIM: usize>(c: &[[R; DIM]], s: R) -> Vec<[R; DIM]> {
    let mut v = vec![];
    for f in [-0.7, -0.01, 0.0, 0.2, 0.5, 0.99, 1.0, 1.01, 3.0] {
        for h in [0.0, 0.4, -2.5] {
            for k in 0..DIM {
                let mut p = [0.0 as R; DIM];
                for d in 0..DIM {
                    p[d] = c[0][d] + (c[1][d] - c[0][d]) * f as R + if d == k { h as R * s } else { 0.0 };
                }
                v.push(p);
            }
        }
    }
    v
}

macro_rules! sp {
    ($d:literal, $name:expr, $al:expr, $qv:expr, $full:expr, $ts:expr) => {
        sp!($d, $name, Space::new($al, $full), $qv, $ts)
    };
    ($d:literal, $name:expr, $sp:expr, $qv:expr, $ts:expr) => {{
        let sp: Space = $sp;
        let qg: Vec<[R; $d]> = qgrid(&$qv);
        let ts: Vec<R> = $ts;
        suite(
            format!("{}-{}d-{}", $name, $d, sp.tag()),
            format!("{} x {} lattice queries over {:?} and 27 queries along the segment per axis, {} parameters", sp.what(2, $d), qg.len(), $qv, ts.len()),
            sp.total::<$d>(2),
            move |i, ctx| {
                let (c, s) = sp.get::<$d>(i, 2);
                let mut q: Vec<[R; $d]> = qg.iter().map(|q| q.map(|x| x * s)).collect();
                q.extend(along(&c, s));
                if let Mode::Points(_) = sp.mode {
                    q.extend((0..TEMPLATES).map(template::<$d>));
                }
                q.push(c[0]);
                q.push(c[1]);
                check::<$d>(&c, &q, &ts, &|l| l.bounding_box().to_vec(), ctx)
            },
        )
        .must(&["foot inside", "foot before the start", "foot past the end", "degenerate segment"])
    }};
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let a = |s: usize, q: usize, t: usize| alpha_more(tier, s, q, t);
    let qv = vec![0.0, 1.0, -1.0, 0.3, 2.5, -4.0, 100.0];
    let q3 = vec![0.0, 1.0, 0.3, -4.0, 60.0];
    let q4 = vec![0.0, 1.0, 0.3, -4.0];
    let ts = || params_small();
    let mut v = vec![
        sp!(1, "rich", a(6, 16, 16), qv, true, params_fine(256)),
        sp!(2, "rich", a(3, 10, 16), qv, true, ts()),
        sp!(3, "rich", a(2, 5, 7), q3, true, ts()),
        sp!(4, "rich", a(2, 3, 4), q4, true, ts()),
        sp!(3, "columns", a(4, 16, 16), q3, false, ts()),
        sp!(4, "columns", a(4, 16, 16), q4, false, ts()),
        sp!(5, "columns", a(3, 16, 16), vec![0.0, 0.3, -4.0], false, ts()),
        sp!(6, "columns", a(3, 12, 16), vec![0.3, -4.0], false, ts()),
        sp!(8, "columns", a(3, 12, 16), vec![0.3, -4.0], false, ts()),
        sp!(1, "rich", Space::scaled(a(4, 12, 14), true), vec![0.0, 1.0, -1.0, 0.3, 2.5, -4.0], ts()),
        sp!(2, "rich", Space::scaled(a(2, 5, 6), true), vec![0.0, 1.0, 0.3, -4.0], ts()),
        sp!(3, "rich", Space::scaled(a(2, 3, 3), true), vec![0.0, 1.0, 0.3], ts()),
        sp!(16, "columns", a(3, 8, 12), vec![0.3], false, ts()),
        sp!(2, "short", [0.0, 1e-9, 1e-7, -2e-8, 3e-6, 1e-5, 1e-4, 1.0].iter().map(|x| *x as R).collect(), vec![0.0, 1e-7, 1e-5, 1.0], true, ts()),
        sp!(2, "offset", [1000.0, 1001.0, 999.5, 1000.3, -2000.0].iter().map(|x| *x as R).collect(), vec![1000.2, 999.0, 1003.0, 0.0], true, ts()),
    ];
    macro_rules! special {
        ($($d:literal)*) => { $(
            v.push(sp!($d, "special", Space::points(TEMPLATES), vec![0.3], ts()));
        )* };
    }
    special!(1 2 3 4 5 6 7 8 9 10);
    v
}
