//! C20: every operation is total on finite inputs, and returns finite numbers.
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::special::{self, SPECIALS};

const VALS: [f64; 14] = [0.0, 1.0, -1.0, 1e100, -1e100, 1e-100, -1e-100, 0.1, 12345.678, 1e50, 1e-8, -1e-8, 1e-160, -3.0];
const PARAMS: [f64; 21] = [
    0.0, 1.0, 0.5, -0.0, 1e-300, -1e-300, 0.25, 1.0 / 3.0, 1.0 - 1e-16, 1.0 + 1e-15, -0.5, 1.5, 2.0, -1.0, 1000.0, -1000.0, 5e-324, 1e-9, 0.9999, -37.5, 700.1,
];
const STEPS: [usize; 8] = [0, 1, 2, 3, 7, 64, 101, 1000];
const TOLS: [f64; 8] = [0.0, 1e-300, 1e-9, 0.5, 1.0, 1e100, 1e300, 2.0];

/// Gap words: knots equal or at least 1e-6 apart.
const GAPS: [f64; 6] = [0.0, 1.0, 1e-6, 0.3, 1e6, 2.0];

fn data<const DIM: usize>(cols: [usize; 4], vals: &[f64], gw: u64, first: f64, ng: usize) -> Data<DIM> {
    let mut ctrl = [[0.0 as R; DIM]; 12];
    for (i, p) in ctrl.iter_mut().enumerate() {
        for (d, x) in p.iter_mut().enumerate() {
            // points 0..4 carry the word, rotated per axis; later ones repeat it
            *x = vals[cols[(i + d) % 4]] as R;
        }
    }
    let mut query = [0.0 as R; DIM];
    for (d, x) in query.iter_mut().enumerate() {
        *x = vals[cols[(d + 2) % 4]] as R;
    }
    let mut gaps = [1.0 as R; 20];
    let mut dg = Digits(gw);
    let w: Vec<f64> = (0..6).map(|_| GAPS[dg.take(ng)]).collect();
    for (i, g) in gaps.iter_mut().enumerate() {
        *g = w[i % 6] as R;
    }
    Data { ctrl, query, first: first as R, gaps }
}

fn check(w: &dyn World, par: &[Par], ctx: &mut Ctx, show: &dyn Fn() -> String) -> Res {
    let mut o = Out::new();
    let f0 = w.fingerprint();
    ctx.state();
    for op in 0.. {
        for q in par {
            if !w.step(op, *q, &mut o) {
                need!(w.fingerprint() == f0, "an object changed");
                ctx.trace();
                return Ok(());
            }
            ctx.trans(1);
            for x in o.values() {
                need!(x.is_finite(), "{} with t={:?}, n={}, tol={:?} returns {:?} on {}", o.name, q.t, q.n, q.tol, o.values(), show());
            }
            ctx.outcome(o.hash());
        }
    }
    unreachable!()
}

fn all_pars(tier: Tier) -> Vec<Par> {
    let mut v = vec![];
    let m = tier.pick(8, 21, 21);
    for (i, t) in PARAMS[..m].iter().enumerate() {
        v.push(Par { t: *t as R, n: STEPS[i % 7], tol: TOLS[i % 8] as R });
    }
    v
}

macro_rules! spaces {
    ($v:ident, $tier:ident, $( ($w:ident $dim:literal $na:expr, $unit:literal) ),*) => { $(
        let na: usize = $na;
        let pars: Vec<Par> = all_pars($tier).into_iter().filter(|p| $unit == 0 || (0.0..=1.0).contains(&p.t)).collect();
        let np = pars.len();
        let words = ipow(na, 4);
        // 16 knot words per control word, stepping through all 6-gap words
        let total_g = ipow(GAPS.len(), 6);
        $v.push(suite(
            format!("extreme-{}-{}d-a{na}", stringify!($w), $dim),
            format!("every word of 4 coordinates from {:?} laid over the control points of {}-dimensional curves, one of {total_g} knot gap words each (stepping through all), every operation with {np} (t, n, tol) triples, |t| up to 1000, n from 0", &VALS[..na], $dim),
            words,
            move |i, ctx| {
                let mut dg = Digits(i);
                let cols = [dg.take(na), dg.take(na), dg.take(na), dg.take(na)];
                let gw = (i * 37 + 11) % total_g;
                let first = [0.0, -3.7, 1000.5, -1e6][(i % 4) as usize];
                let d = data::<$dim>(cols, &VALS[..na], gw, first, GAPS.len());
                let w = $w::new(d.clone());
                if i == 7 { ctx.sample(|| format!("{d:?}")); }
                check(&w, &pars, ctx, &|| format!("{d:?}"))
            },
        ));
    )* };
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    spaces!(v, tier, (W1 1 tier.pick(3, 8, 14), 0), (W2 2 tier.pick(3, 9, 14), 0), (W3 3 tier.pick(2, 7, 14), 0), (W8 8 tier.pick(2, 5, 9), 0), (WX 2 tier.pick(2, 5, 9), 0), (WY 1 tier.pick(1, 4, 7), 1), (WZ 6 tier.pick(2, 7, 14), 0));
    // every knot gap word
    let ng = tier.pick(3, 4, 6);
    let total = ipow(ng, 6);
    let pars = all_pars(tier);
    v.push(suite(
        format!("knots-g{ng}"),
        format!("every word of 6 knot gaps from {:?}, repeated along the knot vector, 4 starting knots, 3 control words, every operation", &GAPS[..ng]),
        total * 12,
        move |i, ctx| {
            let (gw, r) = (i % total, i / total);
            let first = [0.0, -3.7, 1000.5, -1e6][(r % 4) as usize];
            let cols = [[3, 4, 1, 0], [1, 7, 8, 2], [0, 0, 0, 0]][(r / 4) as usize];
            let d = data::<2>(cols, &VALS, gw, first, ng);
            let w = W2::new(d.clone());
            ctx.class(if d.gaps[..6].iter().all(|g| *g == 0.0) { "all knots equal" } else { "knots" });
            check(&w, &pars, ctx, &|| format!("{d:?}"))
        },
    ).must(&["all knots equal", "knots"]));
    // step counts
    let pars: Vec<Par> = (0..=tier.pick(20, 130, 1100)).map(|n| Par { t: 0.5, n, tol: 0.0 }).collect();
    v.push(suite(
        "steps",
        format!("every step count 0..={} and every operation, 64 control words", pars.len() - 1),
        64,
        move |i, ctx| {
            let mut dg = Digits(i);
            let cols = [dg.take(4), dg.take(4), dg.take(4), 1];
            let d = data::<2>(cols, &VALS, 1 + i * 517, 0.0, GAPS.len());
            let w = W2::new(d.clone());
            check(&w, &pars, ctx, &|| format!("{d:?}"))
        },
    ));
    let k = SPECIALS as u64 / tier.pick(28, 1, 1);
    v.push(suite(
        format!("special-{k}"),
        format!("{k} object sets in special position (closed, even, mirrored, coincident, upright, far, tiny, ...; 1 to 9 dimensions; long curves), {} parameter sets, every operation", special::PARS.len()),
        k,
        move |i, ctx| {
            let i = i as usize;
            if !special::wanted(i, tier.pick(8, 4, 1)) {
                return Ok(());
            }
            ctx.class("special position");
            check(&*special::special(i), &special::PARS, ctx, &|| format!("object set {i} in special position, {}", special::show(i)))
        },
    ).must(&["special position"]));
    v.push(suite("special-long", "every seventh object set in special position, step counts up to 65537".to_string(), k / 7, move |i, ctx| {
        let i = i as usize * 7;
        if i % special::KINDS > 8 && tier != Tier::Thorough {
            return Ok(());
        }
        check(&*special::special(i), &special::LONG[..tier.pick(2, 3, 4)], ctx, &|| format!("object set {i} in special position, {}", special::show(i)))
    }));
    v
}
