//! C19: no operation allocates. A counting global allocator is the monitor.
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::special::{self, SPECIALS};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn bump() {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

const VALS: [f64; 6] = [0.0, 1.0, -2.5, 1e100, 0.1, -1e-8];
const GAPS: [f64; 4] = [0.0, 1.0, 0.3, 2.5];
const TS: [f64; 12] = [0.0, 1.0, 0.5, 0.25, 1.0 / 3.0, 0.999, -0.5, 2.0, f64::NAN, f64::INFINITY, 1e-9, -700.0];

fn check<W: World + ?Sized, B: std::ops::Deref<Target = W>>(make: impl Fn() -> B, par: &[Par], ctx: &mut Ctx) -> Res {
    // creation, copies and disposal of every object
    let mut o = Out::new();
    let before = count();
    let w = make();
    // less the box the harness keeps the objects in
    let after = count() - 1;
    need!(after == before, "constructing the objects allocates {} times", after - before);
    ctx.state();
    for op in 0.. {
        for q in par {
            let before = count();
            if !w.step(op, *q, &mut o) {
                ctx.trace();
                return Ok(());
            }
            let d = count() - before;
            need!(d == 0, "{} with t={:?}, n={}, tol={:?} touches the heap {d} times", o.name, q.t, q.n, q.tol);
            ctx.trans(1);
            ctx.outcome((op as u64) << 32 ^ o.hash());
        }
    }
    unreachable!()
}

fn data<const DIM: usize>(i: u64, na: usize) -> Data<DIM> {
    let mut dg = Digits(i);
    let c: Vec<usize> = (0..3).map(|_| dg.take(na)).collect();
    let g: Vec<usize> = (0..4).map(|_| dg.take(GAPS.len())).collect();
    let mut ctrl = [[0.0 as R; DIM]; 12];
    for (i, p) in ctrl.iter_mut().enumerate() {
        for (d, x) in p.iter_mut().enumerate() {
            *x = VALS[c[(i + d) % 3]] as R;
        }
    }
    let mut gaps = [0.0 as R; 20];
    for (i, x) in gaps.iter_mut().enumerate() {
        *x = GAPS[g[i % 4]] as R;
    }
    Data { ctrl, query: [VALS[c[0]] as R + 0.5; DIM], first: -1.0, gaps }
}

fn sp<const DIM: usize, W: World + 'static>(na: usize, par: Vec<Par>, f: fn(Data<DIM>) -> W) -> Suite {
    let n = ipow(na, 3) * ipow(GAPS.len(), 4);
    suite(
        format!("heap-{DIM}d-a{na}-n{}", par.iter().map(|p| p.n).max().unwrap()),
        format!("every word of 3 coordinates from {:?} and of 4 knot gaps from {GAPS:?} laid over all curves in {DIM} dimensions; every operation (including rejected constructions and parameters outside the domain, NaN, infinite) with {} (t, n, tol) triples under a counting allocator", &VALS[..na], par.len()),
        n,
        move |i, ctx| {
            let d = data::<DIM>(i, na);
            ctx.class("worlds");
            if i == 100 {
                ctx.sample(|| format!("{d:?} with {par:?}"));
            }
            check(|| Box::new(f(d.clone())), &par, ctx)
        },
    )
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let par = |ns: &[usize]| -> Vec<Par> {
        TS.iter().enumerate().map(|(i, t)| Par { t: *t as R, n: ns[i % ns.len()], tol: [0.0, 0.5, 1e6][i % 3] as R }).collect()
    };
    let long: Vec<Par> = [1023, 1024, 1025, 4096, 4097, 65536, 65537].iter().map(|n| Par { t: 0.5, n: *n, tol: 0.0 }).collect();
    let every: Vec<Par> = (0..=tier.pick(64, 300, 2100)).map(|n| Par { t: 0.5, n, tol: 0.0 }).collect();
    let mut v = vec![
        sp::<1, W1>(tier.pick(1, 3, 6), par(&[0, 1, 2, 65, 129]), W1::new),
        sp::<2, W2>(tier.pick(1, 4, 6), par(&[0, 1, 2, 65, 129]), W2::new),
        sp::<3, W3>(tier.pick(1, 3, 6), par(&[0, 1, 2, 65, 129]), W3::new),
        sp::<8, W8>(tier.pick(1, 2, 6), par(&[0, 1, 2, 65, 129]), W8::new),
    ];
    v.push(sp::<2, WX>(tier.pick(1, 2, 4), par(&[0, 1, 2, 65]), WX::new));
    v.push(sp::<1, WY>(tier.pick(1, 1, 2), par(&[0, 1, 2, 65]), WY::new));
    v.push(sp::<6, WZ>(tier.pick(1, 2, 5), par(&[0, 1, 2, 65]), WZ::new));
    let d = long;
    v.push(suite("heap-long", "step counts around powers of two up to 65537, every operation".to_string(), d.len() as u64, move |i, ctx| {
        let x = data::<2>(85, 4);
        check(|| Box::new(W2::new(x.clone())), &d[i as usize..=i as usize], ctx)
    }));
    v.push(suite(
        format!("heap-every-n-{}", every.len() - 1),
        format!("every step count 0..={}, every operation", every.len() - 1),
        every.len() as u64,
        move |i, ctx| {
        let x = data::<2>(85, 4);
        check(|| Box::new(W2::new(x.clone())), &every[i as usize..=i as usize], ctx)
    },
    ));
    let k = SPECIALS as u64 / tier.pick(28, 1, 1);
    v.push(suite(
        format!("heap-special-{k}"),
        format!("{k} object sets in special position (closed, even, mirrored, coincident, upright, far, tiny, ...; 1 to 9 dimensions; long curves), {} parameter sets, every operation", special::PARS.len()),
        k,
        move |i, ctx| {
            let i = i as usize;
            if !special::wanted(i, tier.pick(8, 4, 1)) {
                return Ok(());
            }
            check(|| special::special(i), &special::PARS, ctx)
        },
    ));
    v.push(suite("heap-special-long", "every seventh object set in special position, step counts up to 65537".to_string(), k / 7, move |i, ctx| {
        let i = i as usize * 7;
        if i % special::KINDS > 8 && tier != Tier::Thorough {
            return Ok(());
        }
        check(|| special::special(i), &special::LONG[..tier.pick(2, 3, 4)], ctx)
    }));
    // the monitor itself: a known allocation is seen (a blind monitor would pass everything)
    v.push(suite("monitor", "one deliberate allocation must be counted", 1, |_, ctx| {
        let b = count();
        let x = std::hint::black_box(vec![1u8; 100]);
        drop(x);
        need!(count() > b, "the allocation counter does not work");
        ctx.trace();
        Ok(())
    }));
    v
}
