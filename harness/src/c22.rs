//! C22: reading, consuming and editing control points in place.
use crate::bsp;
use crate::core::*;
use crate::need;
use crate::shapes::*;
use std::marker::PhantomData;
use stroke::bezier_segment::BezierSegment;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, QuadraticBezier, Spline};

fn beq<const D: usize>(a: Pt<D>, b: [R; D]) -> bool {
    a.into_iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn bits<const D: usize>(a: Pt<D>) -> Vec<u64> {
    a.into_iter().map(|x| x.to_bits() as u64).collect()
}

/// All operations of a generic curve, as bits.
macro_rules! observe {
    ($f:ident, $n:tt) => {
        fn $f<const D: usize>(b: &Bezier<Pt<D>, $n>, deep: bool, o: &mut Vec<u64>) {
            o.clear();
            for p in b.control_points() {
                o.extend(bits(p));
            }
            for p in b.clone().into_iter() {
                o.extend(bits(p));
            }
            let ts: &[R] = if deep { &[0.0, 0.3, 0.5, 1.0, 0.875] } else { &[0.3] };
            for t in ts {
                o.extend(bits(b.eval(*t)));
                o.extend(bits(<Bezier<Pt<D>, $n> as Spline<Pt<D>>>::eval(b, *t)));
                let (x, y) = b.split(*t);
                for p in x.control_points().into_iter().chain(y.control_points()) {
                    o.extend(bits(p));
                }
            }
            observe!(@d b deep o $n);
            if deep {
                o.push(b.arclen(4).to_bits() as u64);
                o.push(b.distance_to_point(pt([0.25; D])).to_bits() as u64);
            }
        }
    };
    (@d $b:ident $deep:ident $o:ident 1) => {};
    (@d $b:ident $deep:ident $o:ident $n:tt) => {
        for p in $b.derivative().control_points() {
            $o.extend(bits(p));
        }
    };
}
observe!(ob1, 1);
observe!(ob2, 2);
observe!(ob3, 3);
observe!(ob4, 4);
observe!(ob5, 5);
observe!(ob6, 6);
observe!(ob8, 8);
observe!(ob9, 9);
observe!(ob12, 12);
observe!(ob17, 17);
observe!(ob33, 33);

/// One step of a history.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    /// set point i (modulo N) through nth()
    Set(usize, usize),
    /// set one coordinate of the last point, reached from the back
    Back(usize),
    /// overwrite every point in a for loop
    All(usize),
    /// scale the first two points, leave the loop early
    Early,
    /// exchange the first and last points
    Swap,
    /// mutable iteration without any change
    Look,
    /// every operation
    Query,
    /// keep a copy, both halves, and the derivative
    Keep,
    /// continue with a copy
    Copy,
    /// continue with the left half
    Left,
    /// write the coordinates one by one through the points' own mutable iteration
    Deep(usize),
}
const STEPS: [Step; 15] = [
    Step::Set(0, 0), Step::Set(1, 1), Step::Set(3, 2), Step::Back(3), Step::All(1), Step::Early, Step::Swap, Step::Look,
    Step::Query, Step::Keep, Step::Copy, Step::Left, Step::Deep(2), Step::Set(2, 4), Step::Set(28, 3),
];
const NEW: [f64; 5] = [-7.25, 0.1, 1e3, -0.0, 1.0 / 3.0];
fn fresh_point<const D: usize>(v: usize, i: usize) -> [R; D] {
    let mut a = [0.0 as R; D];
    for (d, x) in a.iter_mut().enumerate() {
        *x = NEW[(v + d + i) % 5] as R;
    }
    a
}

macro_rules! history {
    ($run:ident, $n:tt, $ob:ident) => {
        fn $run<const D: usize>(start: &[[R; D]], word: &[Step], ctx: &mut Ctx) -> Res {
            let mut model: [[R; D]; $n] = [[0.0; D]; $n];
            model.copy_from_slice(&start[..$n]);
            let mut b: Bezier<Pt<D>, $n> = Bezier::new(model.map(pt));
            let mut kept: Vec<(Bezier<Pt<D>, $n>, [[R; D]; $n], &'static str)> = vec![];
            let (mut o1, mut o2) = (vec![], vec![]);
            ctx.state();
            for (at, s) in word.iter().enumerate() {
                match *s {
                    Step::Set(i, v) => {
                        let i = i % $n;
                        let x = fresh_point::<D>(v, i);
                        model[i] = x;
                        *(&mut b).into_iter().nth(i).unwrap() = pt(x);
                    }
                    Step::Back(v) => {
                        let x = NEW[v] as R;
                        model[$n - 1][D - 1] = x;
                        let p = (&mut b).into_iter().next_back().unwrap();
                        *p.into_iter().next_back().unwrap() = x;
                    }
                    Step::All(v) => {
                        for (i, p) in (&mut b).into_iter().enumerate() {
                            need!(beq(*p, model[i]), "{start:?} {:?}: mutable iteration shows {:?} at {i} instead of {:?}", &word[..=at], arr(*p), model[i]);
                            let x = fresh_point::<D>(v, i);
                            *p = pt(x);
                            model[i] = x;
                        }
                    }
                    Step::Early => {
                        for (i, p) in (&mut b).into_iter().enumerate() {
                            if i == 2 {
                                break;
                            }
                            *p = *p * (0.5 as R);
                            for x in model[i].iter_mut() {
                                *x = *x * 0.5;
                            }
                        }
                    }
                    Step::Swap => {
                        let mut it = (&mut b).into_iter();
                        if let (Some(x), Some(y)) = (it.next(), it.next_back()) {
                            std::mem::swap(x, y);
                            model.swap(0, $n - 1);
                        }
                    }
                    Step::Look => {
                        let k = (&mut b).into_iter().count();
                        need!(k == $n, "mutable iteration yields {k} points of {}", $n);
                    }
                    Step::Query => {
                        $ob(&b, true, &mut o1);
                        ctx.trans(20);
                    }
                    Step::Keep => {
                        kept.push((b, model, "copy"));
                        kept.push((b.clone(), model, "clone"));
                        let (l, r) = b.split(0.25);
                        let (lm, rm) = (l.control_points().map(arr), r.control_points().map(arr));
                        kept.push((l, lm, "left half"));
                        kept.push((r, rm, "right half"));
                    }
                    Step::Copy => {
                        let c = b;
                        // the original stays behind, untouched
                        kept.push((b, model, "original"));
                        b = c;
                    }
                    Step::Left => {
                        let (l, r) = b.split(0.5);
                        let rm = r.control_points().map(arr);
                        kept.push((r, rm, "other half"));
                        kept.push((b, model, "parent"));
                        model = l.control_points().map(arr);
                        b = l;
                    }
                    Step::Deep(v) => {
                        for (i, p) in (&mut b).into_iter().enumerate() {
                            for (d, x) in p.into_iter().enumerate() {
                                *x = NEW[(v + i + 2 * d) % 5] as R;
                                model[i][d] = *x;
                            }
                        }
                    }
                }
                ctx.trans(1);
                // the curve is the one built from the edited points, in every operation
                let f: Bezier<Pt<D>, $n> = Bezier::new(model.map(pt));
                let deep = at + 1 == word.len();
                $ob(&b, deep, &mut o1);
                $ob(&f, deep, &mut o2);
                ctx.state();
                ctx.trans(if deep { 30 } else { 12 });
                need!(o1 == o2, "{start:?} after {:?}: behaves differently from a curve newly built from {model:?}", &word[..=at]);
                for (i, x) in model.iter().enumerate() {
                    need!(beq(b.control_points()[i], *x), "{start:?} after {:?}: control point {i} is {:?} instead of {x:?}", &word[..=at], arr(b.control_points()[i]));
                }
                for (k, m, what) in &kept {
                    need!((0..$n).all(|i| beq(k.control_points()[i], m[i])), "{start:?} after {:?}: a {what} kept earlier changed", &word[..=at]);
                }
            }
            for (k, m, what) in &kept {
                let f: Bezier<Pt<D>, $n> = Bezier::new(m.map(pt));
                $ob(k, false, &mut o1);
                $ob(&f, false, &mut o2);
                need!(o1 == o2, "{start:?} after {word:?}: a {what} kept earlier behaves differently");
                ctx.class("kept object");
            }
            ctx.outcome(o2.iter().fold(0u64, |a, x| a.rotate_left(5) ^ x));
            ctx.trace();
            Ok(())
        }
    };
}
history!(h1, 1, ob1);
history!(h2, 2, ob2);
history!(h3, 3, ob3);
history!(h4, 4, ob4);
history!(h5, 5, ob5);
history!(h6, 6, ob6);
history!(h8, 8, ob8);
history!(h9, 9, ob9);
history!(h12, 12, ob12);
history!(h17, 17, ob17);
history!(h33, 33, ob33);

fn start<const D: usize>() -> Vec<[R; D]> {
    (0..33).map(|i| {
        let mut a = [0.0 as R; D];
        for (d, x) in a.iter_mut().enumerate() {
            *x = (((i * 7 + d * 3) as f64 * 0.73).rem_euclid(3.1) - 1.2) as R;
        }
        a
    }).collect()
}

fn hist<const D: usize>(n: usize, len: usize, run: fn(&[[R; D]], &[Step], &mut Ctx) -> Res) -> Suite {
    suite(
        format!("edits-n{n}-{D}d-len{len}"),
        format!("every history of {len} steps from {} (edits through mutable iteration of every shape, queries, copies, halves) on a generic curve of {n} points in {D} dimensions; after every step all operations against a newly built curve, bit for bit, and all kept objects unchanged", STEPS.len()),
        ipow(STEPS.len(), len),
        move |i, ctx| {
            let mut dg = Digits(i);
            let w = dg.vals(&STEPS, len);
            ctx.sample(|| format!("{n} points, {D} dimensions: {w:?}"));
            run(&start::<D>(), &w, ctx)
        },
    )
    .must(&["kept object"])
}

// ------------------------------------------------------------------ accessors
fn exact_vals() -> Vec<R> {
    vec![
        0.0, -0.0, 1.0, 5e-324f64 as R, R::MIN_POSITIVE, -R::MAX, R::INFINITY, R::NEG_INFINITY, R::NAN,
        R::from_bits(R::NAN.to_bits() ^ 0x2b), 0.1, next_up(1.0), -1e-30,
    ]
}
struct Gen<const D: usize>(PhantomData<[(); D]>);
macro_rules! acc {
    ($d:tt ; [$($n:tt)*] ; $($k:tt $c:tt $deg:tt),*) => {
        impl Gen<$d> {
            fn check(c: &[[R; $d]], ctx: &mut Ctx) -> Res {
                const D: usize = $d;
                let line = LineSegment::new(pt(c[0]), pt(c[1]));
                let quad = QuadraticBezier::new(pt(c[0]), pt(c[1]), pt(c[2]));
                let cubic = CubicBezier::new(pt(c[0]), pt(c[1]), pt(c[2]), pt(c[3]));
                ctx.state();
                for (i, p) in quad.control_points().into_iter().enumerate() {
                    need!(beq(p, c[i]), "quadratic {:?}: control point {i} is {:?}", &c[..3], arr(p));
                }
                for (i, p) in cubic.control_points().into_iter().enumerate() {
                    need!(beq(p, c[i]), "cubic {:?}: control point {i} is {:?}", &c[..4], arr(p));
                }
                for (s, l) in [(BezierSegment::from(line), 1), (BezierSegment::from(quad), 2), (BezierSegment::from(cubic), 3)] {
                    need!(beq(s.start(), c[0]) && beq(s.end(), c[l]), "wrapped curve of {:?}: ends {:?} {:?}", &c[..=l], arr(s.start()), arr(s.end()));
                    let b = BezierSegment::from(s.baseline());
                    need!(beq(b.start(), c[0]) && beq(b.end(), c[l]), "wrapped curve of {:?}: baseline {:?} {:?}", &c[..=l], arr(b.start()), arr(b.end()));
                }
                for (b, l) in [(quad.baseline(), 2), (cubic.baseline(), 3)] {
                    let s = BezierSegment::from(b);
                    need!(beq(s.start(), c[0]) && beq(s.end(), c[l]), "baseline of {:?}: {:?} {:?}", &c[..=l], arr(s.start()), arr(s.end()));
                }
                ctx.trans(12);
                $( {
                    let mut a = [pt([0.0 as R; D]); $n];
                    for i in 0..$n { a[i] = pt(c[i % c.len()]); }
                    let b: Bezier<Pt<D>, $n> = Bezier::new(a);
                    ctx.state();
                    for (i, p) in b.control_points().into_iter().enumerate() {
                        need!(beq(p, c[i % c.len()]), "generic curve of {} points {c:?}: control point {i} is {:?}", $n, arr(p));
                    }
                    let mut k = 0;
                    for p in b {
                        need!(beq(p, c[k % c.len()]), "generic curve of {} points {c:?}: iteration yields {:?} at {k}", $n, arr(p));
                        k += 1;
                    }
                    need!(k == $n, "iteration yields {k} of {} points", $n);
                    let mut m = b;
                    for (i, p) in (&mut m).into_iter().enumerate() {
                        need!(beq(*p, c[i % c.len()]), "generic curve of {} points {c:?}: mutable iteration yields {:?} at {i}", $n, arr(*p));
                    }
                    for (i, p) in (&mut m).into_iter().rev().enumerate() {
                        need!(beq(*p, c[($n - 1 - i) % c.len()]), "generic curve of {} points {c:?}: reversed mutable iteration yields {:?} at {i}", $n, arr(*p));
                    }
                    ctx.trans(4 * $n);
                } )*
                $( {
                    let mut a = [pt([0.0 as R; D]); $c];
                    for i in 0..$c { a[i] = pt(c[i % c.len()]); }
                    for variant in 0..4 {
                        let mut kn = [0.0 as R; $k];
                        for (i, x) in kn.iter_mut().enumerate() {
                            *x = match variant { 0 => i as R * 0.1, 1 => if i <= $deg { -0.0 } else if i >= $c { 35.0 } else { 0.1 * i as R }, 2 => 1e-30 * i as R, _ => [-R::MAX, -1.0, 0.0, 5e-324f64 as R, 1.0, next_up(1.0), 1e30, R::MAX][i * 8 / $k] };
                        }
                        let s = match BSpline::<Pt<D>, $k, $c, $deg>::new(kn, a) { Ok(s) => s, Err(e) => crate::bail!("knots {kn:?} rejected: {e:?}") };
                        ctx.state();
                        let ks: Vec<R> = s.knots().copied().collect();
                        need!(ks.len() == $k && ks.iter().zip(&kn).all(|(x, y)| x.to_bits() == y.to_bits()), "knots {kn:?} are returned as {ks:?}");
                        let cs: Vec<Pt<D>> = s.control_points().copied().collect();
                        need!(cs.len() == $c && cs.iter().enumerate().all(|(i, p)| beq(*p, c[i % c.len()])), "control points {c:?} are returned as {:?}", cs.iter().map(|p| arr(*p)).collect::<Vec<_>>());
                        ctx.trans(2);
                    }
                } )*
                ctx.trace();
                Ok(())
            }
        }
    };
}
acc!(1; [1 2 3 4 5 7 8 9 12 17 33]; 5 4 0, 7 5 1, 8 5 2, 9 5 3, 16 10 5, 70 66 3);
acc!(2; [1 2 3 4 5 7 8 9 12 17 33]; 5 4 0, 7 5 1, 8 5 2, 9 5 3, 16 10 5, 70 66 3);
acc!(3; [1 2 3 4 5 7 8 9 12 17 33]; 5 4 0, 7 5 1, 8 5 2, 9 5 3, 16 10 5, 70 66 3);
acc!(7; [1 2 3 4 5 7 8 9 12 17 33]; 5 4 0, 7 5 1, 8 5 2, 9 5 3, 16 10 5, 70 66 3);

macro_rules! accsuite {
    ($v:ident $d:tt $na:expr) => {{
        let al = exact_vals()[..$na].to_vec();
        let n = ipow(al.len(), 4);
        $v.push(suite(
            format!("accessors-{}d-a{}", $d, al.len()),
            format!("every word of 4 coordinates from {al:?} (every axis carries another word) as control points of every curve type with 1..12 points, and of B-splines; accessors and iteration bit for bit"),
            n,
            move |i, ctx| Gen::<$d>::check(&columns::<$d>(i, 4, &al), ctx),
        ));
    }};
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let _ = bsp::SHAPES;
    let l = |s, q, t| tier.pick(s, q, t);
    let mut v = vec![
        hist::<1>(1, l(2, 4, 5), h1::<1>),
        hist::<2>(2, l(2, 5, 6), h2::<2>),
        hist::<2>(3, l(2, 5, 6), h3::<2>),
        hist::<3>(4, l(2, 5, 6), h4::<3>),
        hist::<2>(5, l(2, 5, 5), h5::<2>),
        hist::<4>(6, l(2, 4, 5), h6::<4>),
        hist::<2>(8, l(2, 4, 5), h8::<2>),
        hist::<2>(9, l(2, 4, 5), h9::<2>),
        hist::<3>(12, l(2, 3, 4), h12::<3>),
        hist::<2>(17, l(2, 3, 4), h17::<2>),
        hist::<1>(33, l(2, 3, 4), h33::<1>),
        hist::<9>(3, l(2, 3, 4), h3::<9>),
    ];
    accsuite!(v 1 l(4, 13, 13));
    accsuite!(v 2 l(4, 11, 13));
    accsuite!(v 3 l(4, 9, 13));
    accsuite!(v 7 l(4, 6, 11));
    v
}
