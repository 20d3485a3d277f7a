//! Curves and queries in special position: what ordinary words over a few values do not contain.
use crate::ops::*;
use crate::core::R;

const FORMS: usize = 30;
/// forms x how many of the points they shape (line, quadratic, cubic)
const PATTERNS: usize = FORMS * 3;
const SCALES: [f64; 4] = [1.0, 1e-7, 1e5, 1e21];
const QUERIES: usize = 7;
const GAPS: usize = 13;

fn scatter(j: usize, d: usize) -> f64 {
    ((j * j * 7 + j * 3 + d * 5 + 1) % 11) as f64 * 0.7 - 3.0
}
/// Coordinate d of point j; form f shapes the first n points.
fn coord(f: usize, n: usize, j: usize, d: usize, dim: usize) -> f64 {
    let a = 1.5 - 0.75 * d as f64;
    let last = d == dim - 1;
    if j >= n && f != 19 && f != 0 && f != 1 {
        return scatter(j, d);
    }
    let x = scatter(j, d);
    let (s0, end) = (scatter(0, d), j == n - 1);
    match f {
        // evenly spaced, falling or rising
        0 => a - j as f64 * (0.5 + 0.25 * d as f64),
        1 => a + j as f64 * (0.5 + 0.25 * d as f64),
        // closed, nearly closed
        2 => if end { s0 } else { x },
        3 => if end { s0 + if last { 1e-6 } else { 0.0 } } else { x },
        4 => -1.0 - x.abs() - 0.01 * j as f64,
        5 => if j == 1 { s0 } else { x },
        6 => if j == n - 1 && n > 2 { scatter(n - 2, d) } else { x },
        7 => if j == 2 { scatter(1, d) } else { x },
        8 => if end { -s0 } else { x },
        9 => if j == 0 { 0.0 } else { x },
        10 => if j == 0 { -0.0 } else { x },
        11 => if end { 0.0 } else { x },
        // upright, flat
        12 => if end && d == 0 { s0 } else { x },
        13 => if end && last { s0 } else { x },
        14 => if j == 1 { 1000.0 + x } else { x },
        15 => if end { 1e-3 * x } else if j == 0 { 2000.0 + x } else { x },
        16 => if last { x } else { 0.25 },
        // control points mirrored about the middle
        17 => if j + 1 == n && n > 3 { scatter(0, d) + scatter(2, d) - scatter(1, d) } else if j == 1 && n > 3 { scatter(1, d) } else { x },
        18 => if j % 2 == 0 { 1.0 + 0.1 * j as f64 } else { -2.0 - 0.1 * d as f64 },
        19 => a,
        20 => round(scatter(j, d) * 16.0) / 16.0 + 0.03125,
        21 => round(scatter(j, d)),
        22 => {
            let mut p = vec_like(dim);
            crate::template::template_into(&mut p[..dim], (j * 3 + 1) % crate::template::TEMPLATES);
            p[d] as f64
        }
        23 => if d == 0 { 0.5 + 1e-7 * j as f64 } else { x },
        24 => if j == 0 { 2e5 } else { x },
        25 => if end { -2e5 } else { x },
        // on one line through the origin, a point of it twice
        26 => (j as f64 - 1.0) * (1.0 - 0.25 * d as f64),
        // a symmetric arch
        27 => if last { [0.0, 1.0, 1.0, 0.0][if n == 3 && j == 2 { 3 } else { j % 4 }] } else { j as f64 - (n - 1) as f64 * 0.5 },
        // all but the first or last in one point
        28 => if end { s0 + 1.0 } else { s0 },
        _ => if j == 0 { s0 + 1.0 } else { s0 },
    }
}
/// To a whole number, also where there is no standard library.
fn round(x: f64) -> f64 {
    (x + 1000.5) as i64 as f64 - 1000.0
}
fn vec_like(_dim: usize) -> [R; 16] {
    [0.0; 16]
}

fn gaps(g: usize) -> (f64, [f64; 20]) {
    let mut v = [0.5; 20];
    let first = match g {
        // all equal, whole numbers from 1
        0 => 1.0,
        1 => { for x in &mut v { *x = 1.0 } ; 0.0 }
        2 => -50.0,
        3 => { for x in &mut v { *x = 100.0 } 100.0 }
        4 => { for x in &mut v { *x = 1e-4 } 0.0 }
        // double knots
        5 => { for i in (1..20).step_by(2) { v[i] = 0.0 } -1.0 }
        // one knot repeated at the front; not at the back
        6 => { for i in 0..4 { v[i] = 0.0 } 0.0 }
        7 => { for i in 4..20 { v[i] = 0.0 } v[2] = 3.0; -2.0 }
        8 => { for i in 0..3 { v[i] = 0.0 } for i in 5..7 { v[i] = 0.0 } 0.0 }
        // spans of very different length
        9 => { for i in (0..20).step_by(3) { v[i] = 64.0 } for i in (1..20).step_by(3) { v[i] = 1e-3 } -3.0 }
        10 => { for i in 0..20 { v[i] = 0.1 * (1 + i) as f64 } -0.7 }
        11 => { for i in (0..20).step_by(4) { v[i] = 0.0; if i + 1 < 20 { v[i + 1] = 0.0 } } 500.0 }
        _ => { for i in 0..20 { v[i] = if i == 9 { 1.0 } else { 0.0 } } 0.25 }
    };
    (first, v)
}

pub fn data<const DIM: usize>(j: usize) -> Data<DIM> {
    let (pat, m) = (j % PATTERNS, j / PATTERNS);
    let (f, n) = (pat % FORMS, 2 + pat / FORMS);
    let scale = SCALES[m % SCALES.len()];
    let mut ctrl = [[0.0 as R; DIM]; 12];
    for (k, p) in ctrl.iter_mut().enumerate() {
        for (d, x) in p.iter_mut().enumerate() {
            *x = (coord(f, n, k, d, DIM) * scale) as R;
        }
    }
    let mut query = [0.0 as R; DIM];
    for (d, x) in query.iter_mut().enumerate() {
        let near = ctrl[0][d];
        *x = match (j + m) % QUERIES {
            0 => near,
            1 => ctrl[n - 1][d],
            2 => 0.0,
            3 => (1e4 * scale * (1.0 + 0.1 * d as f64)) as R,
            4 => near + (1e-3 * scale) as R,
            5 => (-4.5 * scale) as R,
            _ => (0.3 * scale * (d as f64 - 0.5)) as R,
        };
    }
    let (first, g) = gaps((j + 3 * m) % GAPS);
    let mut gs = [0.0 as R; 20];
    for (x, y) in gs.iter_mut().zip(g) {
        *x = y as R;
    }
    Data { ctrl, query, first: first as R, gaps: gs }
}
/// Worlds in special position: 11 kinds (dimensions 1 to 9, and long curves) of each.
pub const KINDS: usize = 11;
pub const SPECIALS: usize = KINDS * PATTERNS * 28;
/// kinds in order; the long curves last
pub fn with(i: usize, f: &mut dyn FnMut(&dyn World)) {
    let j = i / KINDS;
    match i % KINDS {
        0 => f(&W2::new(data(j))),
        1 => f(&W3::new(data(j))),
        2 => f(&W1::new(data(j))),
        3 => f(&W8::new(data(j))),
        4 => f(&W4::new(data(j))),
        5 => f(&W5::new(data(j))),
        6 => f(&W7::new(data(j))),
        7 => f(&W9::new(data(j))),
        8 => f(&WZ::new(data(j))),
        9 => f(&WX::new(data(j))),
        _ => f(&WY::new(data(j))),
    }
}
#[cfg(not(feature = "free"))]
pub fn special(i: usize) -> Box<dyn World> {
    let j = i / KINDS;
    match i % KINDS {
        0 => Box::new(W2::new(data(j))),
        1 => Box::new(W3::new(data(j))),
        2 => Box::new(W1::new(data(j))),
        3 => Box::new(W8::new(data(j))),
        4 => Box::new(W4::new(data(j))),
        5 => Box::new(W5::new(data(j))),
        6 => Box::new(W7::new(data(j))),
        7 => Box::new(W9::new(data(j))),
        8 => Box::new(WZ::new(data(j))),
        9 => Box::new(WX::new(data(j))),
        _ => Box::new(WY::new(data(j))),
    }
}
#[cfg(not(feature = "free"))]
pub fn show(i: usize) -> String {
    let j = i / KINDS;
    match i % KINDS {
        0 | 9 => format!("{:?}", data::<2>(j)),
        1 => format!("{:?}", data::<3>(j)),
        2 | 10 => format!("{:?}", data::<1>(j)),
        3 => format!("{:?}", data::<8>(j)),
        4 => format!("{:?}", data::<4>(j)),
        5 => format!("{:?}", data::<5>(j)),
        6 => format!("{:?}", data::<7>(j)),
        7 => format!("{:?}", data::<9>(j)),
        _ => format!("{:?}", data::<6>(j)),
    }
}
/// The long curves take most of the time: every so manyth of them is enough.
pub fn wanted(i: usize, every: usize) -> bool {
    i % KINDS < 9 || (i / KINDS) % every == 0
}
pub const PARS: [Par; 18] = [
    Par { t: 0.99995, n: 1, tol: 0.0 }, Par { t: 1e-5, n: 3, tol: 60.0 }, Par { t: 0.5005, n: 9, tol: 1e-7 }, Par { t: 0.5, n: 33, tol: 1.0 },
    Par { t: 1.0 / 3.0, n: 64, tol: 1e-3 }, Par { t: 0.62, n: 48, tol: 1e9 }, Par { t: 0.625, n: 16, tol: 1e-12 }, Par { t: 0.0315, n: 101, tol: 0.25 },
    Par { t: 1.0 - R::EPSILON / 2.0, n: 2, tol: 1e4 }, Par { t: 1.0 - 1e-10, n: 17, tol: 0.01 }, Par { t: 1e-10, n: 25, tol: 1e-30 }, Par { t: 0.0, n: 128, tol: 2.0 },
    Par { t: 1.0, n: 0, tol: 0.1 }, Par { t: 0.75, n: 4, tol: 1e30 }, Par { t: 0.125, n: 32, tol: 0.5 }, Par { t: -0.0, n: 7, tol: 3.0 },
    Par { t: 0.1, n: 6, tol: 10.0 }, Par { t: 0.9, n: 100, tol: 100.0 },
];
/// Numbering used where builds are compared: the kinds of up to 9 dimensions, the long curves, large step counts.
pub fn number(space: u64, i: u64) -> usize {
    let k = KINDS as u64;
    (match space {
        10 => i / 2 * k + 9 + i % 2,
        _ => i / 9 * k + i % 9,
    }) as usize
}
pub fn pars(space: u64) -> &'static [Par] {
    match space {
        9 => &PARS,
        10 => &PARS[..10],
        _ => &LONG[..3],
    }
}
/// Large step counts.
pub const LONG: [Par; 4] = [Par { t: 0.4, n: 1001, tol: 0.0 }, Par { t: 0.6, n: 4096, tol: 0.0 }, Par { t: 0.2, n: 5001, tol: 0.0 }, Par { t: 0.8, n: 65537, tol: 0.0 }];
