//! C21, part of its own: every single-precision parameter in [0,1].
//! (The rest of C21 is C01..C15 built for a 32-bit target, where R is f32.)
use crate::core::*;
use crate::need;
use crate::shapes::*;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, QuadraticBezier};

const CURVES: [[[f64; 2]; 5]; 3] = [
    [[0.0, 1.77], [2.9, 0.0], [4.3, 3.0], [3.2, -4.0], [7.3, 2.7]],
    [[-1e3, 0.3], [12345.678, -0.7], [0.1, 1e-3], [-3.0, 1e6], [1e-6, 10.0]],
    [[1.0, 1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0], [1.0, 1.0]],
];
fn bern(c: &[[f64; 2]], t: f64, d: usize) -> f64 {
    let mut p: [f64; 5] = [0.0; 5];
    for (i, x) in c.iter().enumerate() {
        p[i] = x[d];
    }
    for k in (1..c.len()).rev() {
        for i in 0..k {
            p[i] = p[i] * (1.0 - t) + p[i + 1] * t;
        }
    }
    p[0]
}

const TOP: u32 = 0x3f80_0000; // 1.0
const BLOCK: u32 = 1 << 15;

fn block(i: u64, stride: u32, curve: usize, ctx: &mut Ctx) -> Res {
    let raw = CURVES[curve];
    let c: Vec<[R; 2]> = raw.iter().map(|p| [p[0] as R, p[1] as R]).collect();
    let cf: Vec<[f64; 2]> = c.iter().map(|p| [p[0] as f64, p[1] as f64]).collect();
    let p: Vec<Pt<2>> = c.iter().map(|x| pt(*x)).collect();
    let line = LineSegment::new(p[0], p[1]);
    let quad = QuadraticBezier::new(p[0], p[1], p[2]);
    let cubic = CubicBezier::new(p[0], p[1], p[2], p[3]);
    let g5: Bezier<Pt<2>, 5> = Bezier::new([p[0], p[1], p[2], p[3], p[4]]);
    // a spline with one Bézier span, and the same over [0,2]
    let s: BSpline<Pt<2>, 8, 4, 3> = BSpline::new([0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0], [p[0], p[1], p[2], p[3]]).map_err(|e| Violation(format!("{e:?}")))?;
    let m = scale_of(&c);
    let tol = 64.0 * EPS * m;
    ctx.state();
    let lo = i as u32 * BLOCK;
    let mut n = 0u64;
    let mut k = lo;
    let mut last = f64::NAN;
    while k < lo.saturating_add(BLOCK) && k <= TOP {
        let t = f32::from_bits(k) as R;
        let (q, w) = ([line.eval(t), quad.eval(t), cubic.eval(t), g5.eval(t), quad.eval_casteljau(t), cubic.eval_casteljau(t)], [2usize, 3, 4, 5, 3, 4]);
        for d in 0..2 {
            let want = [0.0, 0.0, bern(&cf[..2], t as f64, d), bern(&cf[..3], t as f64, d), bern(&cf[..4], t as f64, d), bern(&cf[..5], t as f64, d)];
            for (x, w) in q.iter().zip(w) {
                let x = x.axis(d) as f64;
                need!((x - want[w]).abs() <= tol, "curve of {w} points {:?}: eval({t:?}) axis {d} is {x:?} instead of {:?}", &c[..w], want[w]);
            }
            let x = [line.axis(t, d), quad.axis(t, d), cubic.axis(t, d)];
            for j in 0..3 {
                need!((x[j] as f64 - want[j + 2]).abs() <= tol, "curve of {} points {:?}: axis({t:?}, {d}) is {:?} instead of {:?}", j + 2, &c[..j + 2], x[j], want[j + 2]);
            }
            match s.eval(t) {
                Ok(x) => need!((x.axis(d) as f64 - want[4]).abs() <= tol, "B-spline of control points {:?} over [0,1]: eval({t:?}) axis {d} is {:?} instead of {:?}", &c[..4], x.axis(d), want[4]),
                Err(e) => crate::bail!("B-spline over [0,1]: eval({t:?}) fails with {e:?}"),
            }
            last = want[5];
        }
        n += 1;
        k += stride;
    }
    ctx.trans(n * 10);
    ctx.traces += n;
    ctx.outcome(last.to_bits());
    ctx.class_n("single-precision parameters", n);
    Ok(())
}

/// Step counts near powers of two, and near the numbers whose square no longer fits a 32-bit word.
const STEPS: [usize; 20] = [
    4096, 16383, 16384, 16385, 32767, 32768, 32769, 46340, 46341, 46342, 50_000, 65_534, 65_535, 65_536, 65_537, 92_682, 100_000, 131_071, 131_072, 131_073,
];
const SHAPES: [[[f64; 2]; 5]; 4] = [
    [[0.0, 0.0], [0.25, 0.0], [0.5, 0.0], [0.75, 0.0], [1.0, 0.0]],
    [[0.0, 1.0], [0.75, 1.0], [1.0, 0.5], [1.0, -0.25], [0.5, -1.0]],
    [[-1.0, -1.0], [1.0, 1.0], [-1.0, 1.0], [1.0, -1.0], [0.0, 0.0]],
    [[3.0, -2.0], [1.0, 2.0], [-1.0, -2.0], [-3.0, 2.0], [-4.0, -2.0]],
];
/// Length of the polyline through n + 1 samples, in double precision.
fn polyline(n: usize, at: impl Fn(f64) -> [f64; 2]) -> f64 {
    let mut prev = at(0.0);
    let mut sum = 0.0;
    for i in 1..=n {
        let p = at(i as f64 / n as f64);
        sum += ((p[0] - prev[0]).powi(2) + (p[1] - prev[1]).powi(2)).sqrt();
        prev = p;
    }
    sum
}
/// Single precision leaves a chord of 1/131072 of the curve a few percent of its length, and summation takes up to one
/// percent: a tenth of the length is a safe bound.
fn many_steps(i: u64, ctx: &mut Ctx) -> Res {
    let n = STEPS[i as usize % STEPS.len()];
    let c = &SHAPES[i as usize / STEPS.len()];
    let p: Vec<Pt<2>> = c.iter().map(|x| pt([x[0] as R, x[1] as R])).collect();
    let spline: BSpline<Pt<2>, 8, 4, 3> = BSpline::new([0.0, 0.0, 0.0, 0.0, 3.0, 3.0, 3.0, 3.0], [p[0], p[1], p[2], p[3]]).map_err(|e| Violation(format!("{e:?}")))?;
    let poly: BSpline<Pt<2>, 5, 3, 1> = BSpline::new([-1.0, -1.0, 1.0, 3.0, 3.0], [p[0], p[1], p[2]]).map_err(|e| Violation(format!("{e:?}")))?;
    let got = [
        ("quadratic", 3, QuadraticBezier::new(p[0], p[1], p[2]).arclen(n)),
        ("cubic", 4, CubicBezier::new(p[0], p[1], p[2], p[3]).arclen(n)),
        ("generic", 3, Bezier::new([p[0], p[1], p[2]]).arclen(n)),
        ("generic", 5, Bezier::new([p[0], p[1], p[2], p[3], p[4]]).arclen(n)),
        ("B-spline", 4, spline.arclen(n)),
        ("polygonal B-spline", 0, poly.arclen(n)),
    ];
    ctx.state();
    for (kind, w, l) in got {
        let want = if w == 0 {
            polyline(n, |t| {
                let (a, b, u) = if t < 0.5 { (c[0], c[1], 2.0 * t) } else { (c[1], c[2], 2.0 * t - 1.0) };
                [a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u]
            })
        } else {
            polyline(n, |t| [bern(&c[..w], t, 0), bern(&c[..w], t, 1)])
        };
        need!((l as f64 - want).abs() <= 0.1 * want, "{kind} curve of control points {:?}: arclen({n}) is {l:?}, the polyline through {} samples measures {want:?}", &c[..w.max(3)], n + 1);
        ctx.trans(1);
        ctx.outcome(l.to_bits() as u64);
    }
    ctx.trace();
    ctx.class("many steps");
    Ok(())
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let blocks = (TOP / BLOCK + 1) as u64;
    (0..3)
        .map(|k| {
            let stride = tier.pick(1024, if k == 0 { 1 } else { 16 }, 1);
            suite(
                format!("every-t-{k}-stride{stride}"),
                format!("every {} single-precision parameter t in [0,1] (bit patterns 0..=0x3f800000) on line, quadratic, cubic, generic and B-spline curves of control points {:?}", if stride == 1 { "".into() } else { format!("{stride}th") }, CURVES[k]),
                blocks,
                move |i, ctx| block(i, stride, k, ctx),
            )
            .must(&["single-precision parameters"])
        })
        .chain([suite(
            "many-steps",
            format!("arc length of {} polygons as quadratic, cubic, generic and B-spline curves at {} step counts up to {}", SHAPES.len(), STEPS.len(), STEPS[STEPS.len() - 1]),
            (SHAPES.len() * STEPS.len()) as u64,
            many_steps,
        )
        .must(&["many steps"])])
        .collect()
}
