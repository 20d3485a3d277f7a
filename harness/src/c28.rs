//! C28: build configurations. The same enumeration of operations runs in builds of the library that differ in
//! optimisation, overflow checks, debug assertions, panic strategy, target features and the number-traits back end;
//! every value returned is compared with the one of the build all other checks use.
use crate::c18::{world, PARS, WORLDS};
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::special;
use std::io::{BufReader, BufWriter, Read, Write};
use std::process::{Command, Stdio};

const ALL: [f64; 11] = [0.0, 1.0, -1.0, 0.1, -3.0, 12345.678, 1e-8, 1e50, -1e-100, 1e100, 1e-160];
const GAPS: [f64; 5] = [0.0, 1.0, 0.3, 2.0, 1e-6];

fn data<const DIM: usize>(i: u64, na: usize) -> Data<DIM> {
    let mut dg = Digits(i);
    let cols = [dg.take(na), dg.take(na), dg.take(na), dg.take(na)];
    let mut ctrl = [[0.0 as R; DIM]; 12];
    for (i, p) in ctrl.iter_mut().enumerate() {
        for (d, x) in p.iter_mut().enumerate() {
            *x = ALL[cols[(i + d) % 4]] as R;
        }
    }
    let mut query = [0.0 as R; DIM];
    for (d, x) in query.iter_mut().enumerate() {
        *x = ALL[cols[(d + 2) % 4]] as R;
    }
    let mut g = Digits((i * 37 + 11) % ipow(GAPS.len(), 6));
    let w: Vec<f64> = (0..6).map(|_| GAPS[g.take(GAPS.len())]).collect();
    let mut gaps = [1.0 as R; 20];
    for (i, x) in gaps.iter_mut().enumerate() {
        *x = w[i % 6] as R;
    }
    Data { ctrl, query, first: [0.0, -3.7, 1000.5, -1e6][(i % 4) as usize] as R, gaps }
}
const MORE: [Par; 6] = [
    Par { t: -0.5, n: 0, tol: 0.0 }, Par { t: 1.5, n: 1, tol: 1e-9 }, Par { t: 1.0, n: 64, tol: 1.0 }, Par { t: -0.0, n: 7, tol: 1e100 }, Par { t: 1.0 / 3.0, n: 101, tol: 0.5 },
    Par { t: 1000.0, n: 2, tol: 2.0 },
];

/// Spaces by number: object sets of C18; words over moderate values; words that include extreme ones.
fn object(space: u64, i: u64) -> Box<dyn World> {
    match space {
        0 => world(i as usize),
        1 => Box::new(W2::new(data(i, 6))),
        2 => Box::new(W3::new(data(i, 6))),
        3 => Box::new(W1::new(data(i, 6))),
        4 => Box::new(W2::new(data(i * 5 + i / 3 % 5, 11))),
        5 => Box::new(W3::new(data(i * 9 + i / 7 % 9, 11))),
        6 => Box::new(WX::new(data(i, 6))),
        7 => Box::new(WY::new(data(i, 6))),
        8 => Box::new(WZ::new(data(i, 11))),
        _ => special::special(special::number(space, i)),
    }
}
fn pars(space: u64) -> &'static [Par] {
    if space == 0 {
        &PARS
    } else if space > 8 {
        special::pars(space)
    } else if space == 7 {
        &MORE[2..5]
    } else {
        &MORE
    }
}

/// The build that is compared: writes each call's values, call by call.
pub fn stream(args: &[String]) {
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let mut o = Out::new();
    let so = std::io::stdout();
    let mut f = BufWriter::new(so.lock());
    for i in num(1)..num(2) {
        let w = object(num(0), i);
        for k in 0.. {
            let mut more = true;
            for q in pars(num(0)) {
                more = w.step(k, *q, &mut o);
                if !more {
                    break;
                }
                f.write_all(&(o.n as u16).to_le_bytes()).unwrap();
                for x in o.values() {
                    f.write_all(&(*x as f64).to_le_bytes()).unwrap();
                }
                // a call that ends the process leaves the calls before it on record
                f.flush().unwrap();
            }
            if !more {
                break;
            }
        }
    }
}

fn close(a: f64, b: f64, size: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * size
}

pub fn compare(v: &(String, String, bool), space: u64, i: u64, n: u64, ctx: &mut Ctx) -> Res {
    let (name, path, exact) = v;
    let mut c = Command::new(path)
        .args(["--stream".to_string(), space.to_string(), i.to_string(), n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| Violation(format!("cannot start {path}: {e}")))?;
    let mut f = BufReader::with_capacity(1 << 16, c.stdout.take().unwrap());
    let mut o = Out::new();
    let mut their = vec![];
    for i in i..n {
        let w = object(space, i);
        ctx.state();
        for k in 0.. {
            let mut more = true;
            for q in pars(space) {
                more = w.step(k, *q, &mut o);
                if !more {
                    break;
                }
                ctx.trans(1);
                let what = || format!("{} on object set {i} of space {space} with t={:?}, n={}, tol={:?}", o.name, q.t, q.n, q.tol);
                let mut b = [0u8; 2];
                if f.read_exact(&mut b).is_err() {
                    let st = c.wait().map_or(String::new(), |s| s.to_string());
                    crate::bail!("{} panics, crashes or does not return in the build '{name}' ({st}), and returns here", what());
                }
                let m = u16::from_le_bytes(b) as usize;
                their.clear();
                for _ in 0..m {
                    let mut b = [0u8; 8];
                    need!(f.read_exact(&mut b).is_ok(), "the build '{name}' stopped in the output of {}", what());
                    their.push(f64::from_le_bytes(b));
                }
                need!(m == o.n, "{} returns {:?} in the build '{name}' and {:?} here", what(), their, o.values());
                let size = o.values().iter().map(|x| (*x as f64).abs()).filter(|x| x.is_finite()).fold(0.0, f64::max);
                for (x, y) in o.values().iter().zip(&their) {
                    let x = *x as f64;
                    need!(
                        if *exact { x == *y || x.is_nan() && y.is_nan() } else { close(x, *y, size) },
                        "{} returns {:?} in the build '{name}' and {:?} here",
                        what(),
                        their,
                        o.values()
                    );
                }
            }
            if !more {
                break;
            }
        }
        ctx.trace();
    }
    ctx.class(if *exact { "objects on which a build agrees bit for bit" } else { "objects on which a build agrees up to rounding" });
    let _ = c.wait();
    Ok(())
}

/// name=path=exact|close, separated by semicolons
fn builds() -> Vec<(String, String, bool)> {
    let v = std::env::var("MC_BUILDS").expect("MC_BUILDS (set by check.sh)");
    v.split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let f: Vec<&str> = x.split('=').collect();
            (f[0].into(), f[1].into(), f[2] == "exact")
        })
        .collect()
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let bs = builds();
    let names: Vec<&str> = bs.iter().map(|b| b.0.as_str()).collect();
    let what = ["the object sets of C18", "2-D, words of 4 over 6 values", "3-D, words of 4 over 6 values", "1-D, words of 4 over 6 values", "2-D, words of 4 over 11 values up to 1e100", "3-D, words of 4 over 11 values up to 1e100", "degrees up to 32", "degrees up to 99, splines of up to 257 points", "6-D", "special position, 1 to 9 dimensions", "long curves in special position"];
    for space in 0..11u64 {
        let full = [WORLDS as u64, 1296, 1296, 1296, 2928, 1626, 1296, 1296, 14641, special::SPECIALS as u64 / 11 * 9, special::SPECIALS as u64 / 11 * 2][space as usize];
        let n = match tier {
            Tier::Small => 8,
            Tier::Quick => [WORLDS as u64, 700, 300, 1296, 500, 200, 150, 12, 300, 90 * 9 * 2, 40][space as usize],
            Tier::Thorough => full,
        }
        .min(full);
        let chunk = [4u64, 8, 8, 8, 8, 8, 4, 1, 8, 8, 1][space as usize];
        let bs: Vec<_> = bs.iter().filter(|b| b.2 || space < 4 || space == 6).cloned().collect();
        let nb = bs.len() as u64;
        let chunks = (n + chunk - 1) / chunk;
        v.push(
            suite(
                format!("builds-{space}"),
                format!("{}: the first {n} of {full}; every operation, {} parameter sets; builds: {}", what[space as usize], pars(space).len(), names.join(", ")),
                chunks * nb,
                move |i, ctx| {
                    let (c, b) = (i / nb, i % nb);
                    compare(&bs[b as usize], space, c * chunk, ((c + 1) * chunk).min(n), ctx)
                },
            )
            .must(&["objects on which a build agrees bit for bit"]),
        );
    }
    v
}
