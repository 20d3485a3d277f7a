//! C16: PointN is a componentwise vector space.
use crate::core::*;
use crate::need;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};
use stroke::{Point, PointN};

pub trait Comp: Copy + Debug + PartialOrd + Default + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Send + Sync + 'static {
    fn bits(self) -> u64;
}
macro_rules! comp {
    ($($t:ty => $e:expr),*) => { $( impl Comp for $t { fn bits(self) -> u64 { let f: fn($t) -> u64 = $e; f(self) } } )* };
}
comp!(f64 => |x| x.to_bits(), f32 => |x| x.to_bits() as u64, i32 => |x| x as u64, i64 => |x| x as u64, i128 => |x| x as u64, u8 => |x| x as u64);

fn items<T: Comp, const N: usize>(p: PointN<T, N>) -> Vec<T> {
    p.into_iter().collect()
}
fn eqb<T: Comp>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}

fn check<T: Comp, const N: usize>(a: [T; N], b: [T; N], s: T, ctx: &mut Ctx) -> Res {
    let (p, q) = (PointN::new(a), PointN::new(b));
    ctx.state();
    need!(eqb(&items(p), &a), "PointN::new({a:?}) iterates {:?}", items(p));
    let want = |f: &dyn Fn(T, T) -> T, g: &dyn Fn(usize) -> T| -> Vec<T> { (0..N).map(|i| f(a[i], g(i))).collect() };
    for (name, got, exp) in [
        ("+", items(p + q), want(&|x, y| x + y, &|i| b[i])),
        ("+ scalar", items(p + s), want(&|x, y| x + y, &|_| s)),
        ("* scalar", items(p * s), want(&|x, y| x * y, &|_| s)),
    ] {
        // reassociation cannot change a single operation: exact
        need!(eqb(&got, &exp), "{a:?} {name} {b:?} / {s:?} = {got:?} instead of {exp:?}");
    }
    ctx.trans(4);
    // equality
    let eq = (0..N).all(|i| a[i] == b[i]);
    need!((p == q) == eq && (q == p) == eq, "{a:?} == {b:?} is {}", p == q);
    need!((p != q) == !eq, "{a:?} != {b:?} is {}", p != q);
    ctx.class(if eq { "equal" } else { "different" });
    ctx.trans(3);
    // operands are unchanged
    need!(eqb(&items(p), &a) && eqb(&items(q), &b), "operands changed");
    // mutable iteration reaches every component, in order
    let mut m = p;
    for (i, x) in (&mut m).into_iter().enumerate() {
        need!(x.bits() == a[i].bits(), "mutable iteration of {a:?} yields {x:?} at {i}");
        *x = b[i];
    }
    need!(eqb(&items(m), &b), "writing {b:?} through mutable iteration gives {:?}", items(m));
    need!((&mut m).into_iter().count() == N, "mutable iteration yields {} components of {N}", (&mut m).into_iter().count());
    need!(eqb(&items(p), &a), "a copy changed with the original");
    ctx.trans(3);
    let z: PointN<T, N> = Default::default();
    need!(items(z).iter().all(|x| x.bits() == T::default().bits()), "default is {:?}", items(z));
    need!(p.into_iter().len() == N, "iterator length");
    ctx.trans(2);
    ctx.trace();
    Ok(())
}
fn check_sub<T: Comp, const N: usize>(a: [T; N], b: [T; N], s: T) -> Res {
    let p = PointN::new(a);
    let w: Vec<T> = (0..N).map(|i| a[i] - b[i]).collect();
    need!(eqb(&items(p - PointN::new(b)), &w), "{a:?} - {b:?} = {:?} instead of {w:?}", items(p - PointN::new(b)));
    let w: Vec<T> = (0..N).map(|i| a[i] - s).collect();
    need!(eqb(&items(p - s), &w), "{a:?} - {s:?} = {:?} instead of {w:?}", items(p - s));
    Ok(())
}

fn tuples<T: Comp, const N: usize>(ty: &str, al: Vec<T>, sub: bool, lim: u64) -> Suite {
    let k = al.len();
    let full = ipow(k, 2 * N) * k as u64;
    let exhaustive = full <= lim;
    // otherwise: every a over two values per axis x b differing in every subset of axes
    let n = if exhaustive { full } else { ipow(2, N) * ipow(2, N) * k as u64 };
    suite(
        format!("{ty}-{N}d-a{k}"),
        if exhaustive {
            format!("all pairs of {N}-component points and scalars over {al:?}")
        } else {
            format!("{N}-component points: every pattern of two of {al:?} per axis, every subset of axes changed, every scalar")
        },
        n,
        move |i, ctx| {
            let mut dg = Digits(i);
            let (mut a, mut b) = ([T::default(); N], [T::default(); N]);
            let s;
            if exhaustive {
                for x in a.iter_mut().chain(b.iter_mut()) {
                    *x = al[dg.take(k)];
                }
                s = al[dg.take(k)];
            } else {
                let (x, y) = (dg.take(1 << N), dg.take(1 << N));
                let si = dg.take(k);
                s = al[si];
                for d in 0..N {
                    let base = (d * 2 + si) % k;
                    a[d] = al[(base + (x >> d & 1)) % k];
                    b[d] = if y >> d & 1 == 1 { al[(base + 1 + (x >> d & 1)) % k] } else { a[d] };
                }
            }
            ctx.sample(|| format!("{a:?} {b:?} {s:?}"));
            check(a, b, s, ctx)?;
            if sub {
                check_sub(a, b, s)?;
                ctx.trans(2);
            }
            Ok(())
        },
    )
}

/// Many components: any two axes changed, everything else equal.
fn wide<T: Comp, const N: usize>(ty: &str, al: Vec<T>, sub: bool) -> Suite {
    let k = al.len();
    suite(
        format!("{ty}-{N}d-a{k}-wide"),
        format!("{N}-component points over rotations of {al:?}: no axis, every axis and every pair of axes changed, to every value, every scalar"),
        (k * k * k * (N * N + 1)) as u64,
        move |i, ctx| {
            let mut dg = Digits(i);
            let (r, v, si) = (dg.take(k), dg.take(k), dg.take(k));
            let xy = dg.take(N * N + 1);
            let mut a = [T::default(); N];
            for d in 0..N {
                a[d] = al[(r + d * 3) % k];
            }
            let mut b = a;
            if xy > 0 {
                let (x, y) = ((xy - 1) / N, (xy - 1) % N);
                b[x] = al[(v + r + x * 3) % k];
                b[y] = al[(v + r + y * 3) % k];
            }
            ctx.sample(|| format!("{a:?} {b:?} {:?}", al[si]));
            check(a, b, al[si], ctx)?;
            if sub {
                check_sub(a, b, al[si])?;
                ctx.trans(2);
            }
            Ok(())
        },
    )
}

/// The point trait: only for the native scalar.
fn traits<const N: usize>(al: Vec<R>, lim: u64) -> Suite {
    let k = al.len();
    let full = if N > 20 { u64::MAX } else { ipow(k, N) };
    let n = full.min(lim);
    suite(
        format!("trait-{N}d-a{k}"),
        format!("{n} of {k}^{N} {N}-component points over {al:?} (the first in counting order, each axis offset by its number): axis(i) for i = 0..{}, squared_length, DIM", N + 3),
        n,
        move |i, ctx| {
            let mut dg = Digits(i);
            let mut a = [0.0 as R; N];
            for (d, x) in a.iter_mut().enumerate() {
                *x = al[(dg.take(k) + d) % k];
            }
            let p = PointN::new(a);
            ctx.state();
            need!(<PointN<R, N> as Point>::DIM == N, "DIM of PointN<_, {N}> is {}", <PointN<R, N> as Point>::DIM);
            for d in 0..N {
                need!(Point::axis(&p, d).to_bits() == a[d].to_bits(), "{a:?}: axis({d}) is {:?}", Point::axis(&p, d));
            }
            let want: f64 = a.iter().map(|x| *x as f64 * *x as f64).sum();
            let got = p.squared_length() as f64;
            need!((got - want).abs() <= 4.0 * EPS * want * N as f64 + 1e-300, "{a:?}: squared_length is {got:?} instead of {want:?}");
            let diff = (p - p).squared_length();
            need!(diff == 0.0, "squared length of a zero vector is {diff:?}");
            ctx.trans(N as u64 + 3);
            // out of range: panics
            if i < 64 {
                for d in [N, N + 1, N + 7, usize::MAX] {
                    let r = std::panic::catch_unwind(|| Point::axis(&p, d));
                    need!(r.is_err(), "{a:?}: axis({d}) of {N} dimensions returns {:?} instead of panicking", r.unwrap());
                    ctx.class("axis out of range panics");
                    ctx.trans(1);
                }
            }
            ctx.outcome(got.to_bits());
            ctx.trace();
            Ok(())
        },
    )
    .must(&["axis out of range panics"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let lim = tier.pick(20_000, 2_000_000, 60_000_000);
    let mut v = vec![];
    let f: Vec<f64> = vec![0.0, 1.0, -2.5, 1.0 / 3.0, -0.0, f64::NAN, 1e300, 0.1];
    let f3: Vec<f32> = vec![0.0, 1.0, -2.5, 1.0 / 3.0, 1e30, 0.1];
    let i: Vec<i32> = vec![0, 1, -3, 1000, 17];
    let il: Vec<i64> = vec![0, -1, 1 << 30, 5];
    let ib: Vec<i128> = vec![0, -1, 1 << 60, 5];
    let u: Vec<u8> = vec![0, 1, 7, 3, 9];
    macro_rules! all {
        ($($n:literal)*) => { $(
            v.push(tuples::<f64, $n>("f64", f.clone(), true, lim));
            v.push(tuples::<f32, $n>("f32", f3.clone(), true, lim));
            v.push(tuples::<i32, $n>("i32", i.clone(), true, lim));
            v.push(tuples::<i64, $n>("i64", il.clone(), true, lim));
            v.push(tuples::<i128, $n>("i128", ib.clone(), true, lim));
            v.push(tuples::<u8, $n>("u8", u.clone(), false, lim));
            v.push(traits::<$n>(vec![1.5, 0.0, -2.0, 1.0 / 3.0, 100.0, -1e-3], lim / 10));
        )* };
    }
    all!(1 2 3 4 5 6 7 8 9);
    macro_rules! many {
        ($($n:literal)*) => { $(
            v.push(wide::<f64, $n>("f64", f[..5].to_vec(), true));
            v.push(wide::<f32, $n>("f32", f3.clone(), true));
            v.push(wide::<i64, $n>("i64", il.clone(), true));
            v.push(wide::<u8, $n>("u8", u.clone(), false));
            v.push(traits::<$n>(vec![1.5, 0.0, -2.0, 1.0 / 3.0, 100.0, -1e-3], lim / 100));
        )* };
    }
    many!(12 16 17 33 64);
    v.push(tuples::<f64, 0>("f64", f.clone(), true, lim));
    for s in v.iter_mut() {
        if s.must.is_empty() && !s.name.contains("-0d") {
            s.must = vec!["equal", "different"];
        }
    }
    v
}
