//! C29: freestanding programs. The operations run in a program linked from nothing but the library, the compiler's core
//! library and a few lines of start-up code; every value is compared with the hosted build's.
use crate::c28::compare;
use crate::core::*;
use crate::special;

pub fn suites(tier: Tier) -> Vec<Suite> {
    let path = std::env::var("MC_FREE").expect("MC_FREE (set by check.sh)");
    let b = ("freestanding".to_string(), path, true);
    let j = special::SPECIALS as u64 / special::KINDS as u64;
    [
        (9u64, "special position (closed, even, mirrored, coincident, upright, far, tiny, ...) in 1 to 9 dimensions", j * 9, tier.pick(90, j * 9, j * 9), 36u64),
        (10, "long curves in special position", j * 2, tier.pick(4, 240, j * 2), 2),
        (11, "special position, large step counts", j * 9, tier.pick(9, 900, 9000), 9),
    ]
    .into_iter()
    .map(|(space, what, full, n, chunk)| {
        let b = b.clone();
        suite(
            format!("freestanding-{space}"),
            format!("{what}: the first {n} of {full} object sets; every operation, {} parameter sets, in a program without standard library, allocator and C library, against the hosted build", special::pars(space).len()),
            (n + chunk - 1) / chunk,
            move |i, ctx| compare(&b, space, i * chunk, ((i + 1) * chunk).min(n), ctx),
        )
        .must(&["objects on which a build agrees bit for bit"])
    })
    .collect()
}
