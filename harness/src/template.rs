//! Points in special position.
use crate::core::R;

/// Points in special position to each other: the origin (one with negative zeros), points on one axis only,
/// a generic point, its negative, double, midpoint and near neighbour, one far along one axis.
pub const TEMPLATES: usize = 13;
pub fn template<const DIM: usize>(k: usize) -> [R; DIM] {
    let mut p = [0.0 as R; DIM];
    template_into(&mut p, k);
    p
}
pub fn template_into(p: &mut [R], k: usize) {
    let dim = p.len();
    let ramp = |d: usize| (1.5 - 0.7 * d as f64 + 0.125 * (d * d) as f64) as R;
    for (d, x) in p.iter_mut().enumerate() {
        let last = d == dim - 1;
        *x = match k {
            0 => 0.0,
            1 => ramp(d),
            2 => if last { 1.0 } else { -0.0 },
            3 => if last { ramp(d) + 1e-6 } else { ramp(d) },
            4 => -ramp(d),
            5 => ramp(d) * 2.0,
            6 => if d == 0 { 1000.0 } else { ramp(d) },
            7 => ramp(d) * 0.5,
            8 => if last { -3.0 } else { 0.0 },
            9 => if d == dim / 2 { 0.37 } else { 7.0 },
            10 => if last { 1.0 + 1e-9 } else { 0.0 },
            11 => ramp(d) * -1e-3,
            _ => if d % 2 == 0 { -40.0 } else { 25.5 },
        };
    }
}
