//! Reference model: textbook definitions, in double-double arithmetic.
//! Deliberately not the algorithms the library uses: Bernstein sums (no De Casteljau),
//! Cox-de Boor basis functions (no de Boor recurrence on control points),
//! Bernstein-coefficient subdivision for true minima (no root formulas, no sampling).
use crate::dd::{dd, DD, ONE, ZERO};

pub fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r.round()
}

/// Bernstein weights of degree n at t.
pub fn bern_weights(n: usize, t: DD) -> Vec<DD> {
    let s = ONE - t;
    let mut tp = vec![ONE; n + 1];
    let mut sp = vec![ONE; n + 1];
    for i in 1..=n {
        tp[i] = tp[i - 1] * t;
        sp[i] = sp[i - 1] * s;
    }
    (0..=n).map(|i| (tp[i] * sp[n - i]).scale(binom(n, i))).collect()
}

pub fn dot(w: &[DD], c: &[f64]) -> DD {
    let mut r = ZERO;
    for (a, b) in w.iter().zip(c) {
        r = r + a.scale(*b);
    }
    r
}

/// Bernstein sum over dd coefficients.
pub fn bern(c: &[DD], t: DD) -> DD {
    let w = bern_weights(c.len() - 1, t);
    let mut r = ZERO;
    for (a, b) in w.iter().zip(c) {
        r = r + *a * *b;
    }
    r
}

/// Bernstein coefficients of the r-th derivative.
pub fn bern_deriv(c: &[DD], r: usize) -> Vec<DD> {
    let mut v: Vec<DD> = c.to_vec();
    for _ in 0..r {
        if v.len() == 1 {
            return vec![ZERO];
        }
        let n = (v.len() - 1) as f64;
        v = (0..v.len() - 1).map(|i| (v[i + 1] - v[i]).scale(n)).collect();
    }
    v
}

/// Minimum over [0,1] of the polynomial with Bernstein coefficients c, by subdivision with
/// convex-hull pruning. Accurate to about `tol`.
pub fn bern_min(c: &[f64], tol: f64) -> f64 {
    bern_argmin(c, 0.0, 1.0, tol).0
}

/// (minimum, parameter) over [a,b] of the parameter range (coefficients are over [0,1]).
pub fn bern_argmin(c: &[f64], a: f64, b: f64, tol: f64) -> (f64, f64) {
    let mut c: Vec<f64> = c.to_vec();
    // restrict to [a,b]
    if b < 1.0 {
        c = subdiv(&c, b).0;
    }
    if a > 0.0 {
        c = subdiv(&c, a / b).1;
    }
    let n = c.len();
    let mut best = c[0];
    let mut arg = a;
    if c[n - 1] < best {
        best = c[n - 1];
        arg = b;
    }
    let mut stack: Vec<(Vec<f64>, f64, f64, u32)> = vec![(c, a, b, 0)];
    while let Some((c, a, b, depth)) = stack.pop() {
        let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
        if lo >= best - tol || depth > 48 {
            continue;
        }
        let m = 0.5 * (a + b);
        let (l, r) = subdiv(&c, 0.5);
        if r[0] < best {
            best = r[0];
            arg = m;
        }
        stack.push((l, a, m, depth + 1));
        stack.push((r, m, b, depth + 1));
    }
    (best, arg)
}

fn subdiv(c: &[f64], t: f64) -> (Vec<f64>, Vec<f64>) {
    let n = c.len();
    let mut w = c.to_vec();
    let mut l = vec![0.0; n];
    let mut r = vec![0.0; n];
    for k in 0..n {
        l[k] = w[0];
        r[n - 1 - k] = w[n - 1 - k];
        for i in 0..n - 1 - k {
            w[i] = w[i] * (1.0 - t) + w[i + 1] * t;
        }
    }
    (l, r)
}

/// (min, max) over [0,1].
pub fn bern_range(c: &[f64], tol: f64) -> (f64, f64) {
    let neg: Vec<f64> = c.iter().map(|x| -x).collect();
    (bern_min(c, tol), -bern_min(&neg, tol))
}

/// Bernstein coefficients (degree 2n) of |c(t) - p|^2; axes[d] are the coefficients of axis d.
pub fn dist2_coeffs(axes: &[Vec<f64>], p: &[f64]) -> Vec<f64> {
    let n = axes[0].len() - 1;
    let mut r = vec![ZERO; 2 * n + 1];
    for (ax, p) in axes.iter().zip(p) {
        let e: Vec<DD> = ax.iter().map(|x| dd(*x) - dd(*p)).collect();
        for i in 0..=n {
            for j in 0..=n {
                r[i + j] = r[i + j] + (e[i] * e[j]).scale(binom(n, i) * binom(n, j));
            }
        }
    }
    (0..=2 * n).map(|k| (r[k] / dd(binom(2 * n, k))).f()).collect()
}

/// Index k of the knot span holding t: knots[k] <= t < knots[k+1], D <= k < C; at the end of the
/// domain the last non-empty span. None outside of the domain or when the domain is a single point.
pub fn span(knots: &[f64], c: usize, d: usize, t: f64) -> Option<usize> {
    let (a, b) = (knots[d], knots[c]);
    if !(t >= a && t <= b) || a == b {
        return None;
    }
    if t == b {
        return (d..c).rev().find(|&k| knots[k] < knots[k + 1]);
    }
    (d..c).find(|&k| knots[k] <= t && t < knots[k + 1])
}

/// All C basis function values of degree d at t (Cox-de Boor), r-th derivative. The degree-0
/// functions are the indicator of the span picked by `span`, which makes them right-continuous and
/// closes the domain on the right.
pub fn basis(knots: &[f64], c: usize, d: usize, t: f64, r: usize) -> Option<Vec<DD>> {
    let k = span(knots, c, d, t)?;
    Some(basis_in_span(knots, c, d, dd(t), r, k))
}

pub fn basis_in_span(knots: &[f64], c: usize, d: usize, t: DD, r: usize, k: usize) -> Vec<DD> {
    let nk = knots.len();
    let mut n: Vec<DD> = vec![ZERO; nk - 1];
    n[k] = ONE;
    if r > d {
        return vec![ZERO; c];
    }
    for p in 1..=d {
        let mut m = vec![ZERO; nk - 1 - p];
        for i in k.saturating_sub(p)..=k.min(nk - 2 - p) {
            let w1 = dd(knots[i + p]) - dd(knots[i]);
            let w2 = dd(knots[i + p + 1]) - dd(knots[i + 1]);
            let mut v = ZERO;
            if p > d - r {
                // derivative step
                if w1.hi > 0.0 && n[i].hi != 0.0 {
                    v = v + n[i].scale(p as f64) / w1;
                }
                if w2.hi > 0.0 && n[i + 1].hi != 0.0 {
                    v = v - n[i + 1].scale(p as f64) / w2;
                }
            } else {
                if w1.hi > 0.0 && n[i].hi != 0.0 {
                    v = v + (t - dd(knots[i])) * n[i] / w1;
                }
                if w2.hi > 0.0 && n[i + 1].hi != 0.0 {
                    v = v + (dd(knots[i + p + 1]) - t) * n[i + 1] / w2;
                }
            }
            m[i] = v;
        }
        n = m;
    }
    n.truncate(c);
    n
}
