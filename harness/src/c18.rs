//! C18: queries are pure. Words over an alphabet of operations, each process exploring every
//! continuation of one first operation; the oracle of each call is what the same call returns as the
//! very first one of a process of its own.
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::special;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;

fn data<const DIM: usize>(salt: u64) -> Data<DIM> {
    let f = |i: usize, d: usize| ((((i * 7 + d * 3) as u64 + salt * 5) as f64 * 0.73).rem_euclid(5.3) - 2.1) as R;
    let mut ctrl = [[0.0 as R; DIM]; 12];
    for (i, p) in ctrl.iter_mut().enumerate() {
        for (d, x) in p.iter_mut().enumerate() {
            *x = f(i, d);
        }
    }
    let mut query = [0.0 as R; DIM];
    for (d, x) in query.iter_mut().enumerate() {
        *x = f(5, d) * 0.5;
    }
    let mut gaps = [0.0 as R; 20];
    for (i, x) in gaps.iter_mut().enumerate() {
        *x = [0.5, 0.25, 0.0, 1.0, 0.125, 0.75, 0.0][(i + salt as usize) % 7];
    }
    Data { ctrl, query, first: [0.0, -0.5, 0.25][salt as usize % 3], gaps }
}

/// Object sets that share almost everything with data(0): one coordinate of one control point differs, or one
/// knot gap, or the query point; or all lengths, sums or ends are the same. A result remembered under a key
/// that does not hold the whole object is returned for a sibling.
fn sibling<const DIM: usize>(v: usize) -> Data<DIM> {
    let mut d = data::<DIM>(0);
    let last = DIM - 1;
    match v {
        0 => {}
        1..=12 => d.ctrl[v - 1][last] = d.ctrl[v - 1][last] + 1.25,
        13..=24 => d.ctrl[v - 13][0] = d.ctrl[v - 13][0] - 0.5,
        // mirrored, reversed, axes exchanged, moved: same lengths
        25 => d.ctrl.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x = -*x)),
        26 => d.ctrl[..4].reverse(),
        27 => d.ctrl[..3].reverse(),
        28 => d.ctrl.iter_mut().for_each(|p| p.reverse()),
        29 => d.ctrl.iter_mut().for_each(|p| p[0] = p[0] + 1.0),
        30 => d.ctrl.reverse(),
        // the same points in another order, the same sums
        31 => d.ctrl.swap(1, 2),
        32 => {
            d.ctrl[1][0] = d.ctrl[1][0] + 0.5;
            d.ctrl[2][0] = d.ctrl[2][0] - 0.5;
        }
        33 => {
            d.ctrl[1][0] = d.ctrl[1][0] + 0.5;
            d.ctrl[1][last] = d.ctrl[1][last] - 0.5;
        }
        34 => d.ctrl.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x = *x * 2.0)),
        // the next float: a key of rounded coordinates
        35 => d.ctrl[1][last] = next_up(d.ctrl[1][last]),
        36 => d.ctrl[0][0] = d.ctrl[0][0] + 1e-7,
        37 => d.query[last] = d.query[last] + 1.0,
        38 => d.query[0] = -d.query[0],
        39 => d.first = 0.5,
        40..=44 => d.gaps[v - 39] = d.gaps[v - 39] + 0.25,
        45 => d.gaps.reverse(),
        46 => d.gaps.iter_mut().for_each(|g| *g = *g * 2.0),
        _ => unreachable!(),
    }
    d
}
const SIBLINGS: usize = 47;
pub const WORLDS: usize = 8 + 3 * SIBLINGS;
pub fn world(w: usize) -> Box<dyn World> {
    if w >= 8 {
        let v = (w - 8) % SIBLINGS;
        return match (w - 8) / SIBLINGS {
            0 => Box::new(W2::new(sibling(v))),
            1 => Box::new(W3::new(sibling(v))),
            _ => Box::new(W1::new(sibling(v))),
        };
    }
    match w {
        0 => Box::new(W2::new(data(0))),
        // the same shapes and knots' places, other values: tells apart caches that forget the object
        1 => Box::new(W2::new(data(1))),
        2 => Box::new(W3::new(data(2))),
        3 => Box::new(W1::new(data(3))),
        4 => Box::new(W8::new(data(4))),
        5 => Box::new(WX::new(data(5))),
        6 => Box::new(WY::new(data(6))),
        _ => Box::new(WZ::new(data(7))),
    }
}
pub const PARS: [Par; 8] = [
    Par { t: 0.3, n: 5, tol: 0.5 }, Par { t: 0.8125, n: 3, tol: 3.0 }, Par { t: 1.0, n: 8, tol: 0.0 },
    // close to the first, and what a narrow key takes for it
    Par { t: 0.3 + R::EPSILON, n: 6, tol: 0.5 + R::EPSILON }, Par { t: 0.3001, n: 5 + 256, tol: 0.75 }, Par { t: 0.7, n: 4, tol: 0.25 },
    Par { t: 0.3000001, n: 10, tol: 1.0 }, Par { t: 0.0, n: 1, tol: 1.5 },
];

/// Letters: (world, operation, parameters).
fn letters(tier: Tier) -> Vec<(u16, u16, u8)> {
    let (nw, np) = tier.pick((2, 1), (5, 3), (5, 3));
    let mut v = vec![];
    for w in 0..nw {
        let n = world(w).ops();
        for k in 0..n {
            for p in 0..np {
                v.push((w as u16, k as u16, p as u8));
            }
        }
    }
    v
}
fn core_letters(tier: Tier) -> Vec<(u16, u16, u8)> {
    let w = world(0);
    let n = w.ops();
    let mut o = Out::new();
    let mut v = vec![];
    for k in 0..n {
        w.step(k, PARS[0], &mut o);
        let s = o.name;
        let kind = ["line ", "quadratic ", "cubic ", "wrapped", "generic Bezier of 3", "generic Bezier of 5", "B-spline of degree 2", "B-spline of degree 3"];
        let what = ["eval", "arclen", "distance", "split", "derivative", "bounding box", "is_linear"];
        let skip = ["raw", "edit", "end", "trait", "casteljau", "second"];
        if kind.iter().any(|x| s.starts_with(x)) && what.iter().any(|x| s.contains(x)) && !skip.iter().any(|x| s.contains(x)) {
            v.push((0, k as u16, 0));
            v.push((1, k as u16, 0));
            if tier == Tier::Quick {
                v.push((0, k as u16, 1));
                v.push((1, k as u16, 2));
            }
        }
    }
    v
}

fn call(ws: &[Option<Box<dyn World>>], l: (u16, u16, u8), o: &mut Out) -> u64 {
    ws[l.0 as usize].as_ref().unwrap().step(l.1 as usize, PARS[l.2 as usize], o);
    o.hash()
}
fn describe(l: (u16, u16, u8)) -> String {
    let w = world(l.0 as usize);
    let mut o = Out::new();
    w.step(l.1 as usize, PARS[l.2 as usize], &mut o);
    format!("[{} on object set {} with t={:?}, n={}]", o.name, l.0, PARS[l.2 as usize].t, PARS[l.2 as usize].n)
}
fn tier_of(s: &str) -> Tier {
    match s {
        "small" => Tier::Small,
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn alphabet(mode: &str, tier: Tier) -> Vec<(u16, u16, u8)> {
    match mode {
        "core" => core_letters(tier),
        "long" => long_letters(tier),
        "mid" => mid_letters(tier),
        _ => letters(tier),
    }
}
/// Long curves and splines, and one more dimension.
fn long_letters(tier: Tier) -> Vec<(u16, u16, u8)> {
    let mut v = vec![];
    for w in tier.pick(7..8, 5..8, 5..8) {
        for k in 0..world(w).ops() {
            v.push((w as u16, k as u16, 0));
            if tier == Tier::Thorough {
                v.push((w as u16, k as u16, 1));
                v.push((w as u16, k as u16, 2));
            }
        }
    }
    v
}
/// All operations on two object sets with the same shapes, without the largest curves.
fn mid_letters(tier: Tier) -> Vec<(u16, u16, u8)> {
    let w = world(0);
    let mut o = Out::new();
    let big = ["of 9 points", "of 17 points", "degree 7"];
    letters(tier)
        .into_iter()
        .filter(|l| {
            w.step(l.1 as usize, PARS[0], &mut o);
            l.0 < 2 && !big.iter().any(|b| o.name.contains(b))
        })
        .collect()
}

/// Child process. `one W K P`: one call, first of its process. `words LEN MODE TIER A`: every word of
/// LEN letters starting with letter A, one after the other.
pub fn fresh(args: &[String]) {
    let num = |i: usize| args[i].parse::<usize>().unwrap();
    if args[0] == "one" {
        let l = (num(1) as u16, num(2) as u16, num(3) as u8);
        let mut ws: Vec<Option<Box<dyn World>>> = (0..WORLDS).map(|_| None).collect();
        ws[l.0 as usize] = Some(world(l.0 as usize));
        let mut o = Out::new();
        let h = call(&ws, l, &mut o);
        print!("{h:016x}");
        let f = ws[l.0 as usize].as_ref().unwrap().fingerprint();
        print!("{f:016x}");
        return;
    }
    if args[0] == "order" {
        let so = std::io::stdout();
        let mut f = std::io::BufWriter::new(so.lock());
        for h in ordered(num(1), num(2), num(3), num(4), num(5), num(6)) {
            f.write_all(&h.to_le_bytes()).unwrap();
        }
        return;
    }
    let (len, tier, a) = (num(1), tier_of(&args[3]), num(4));
    // a group runs the words of every first letter in one process
    let group = args[0] == "group";
    let al = if group { group_letters(&args[2], tier, a) } else { alphabet(&args[2], tier) };
    let (a, m) = (if group { 0 } else { a }, al.len());
    let mut buf = vec![];
    std::io::stdin().read_to_end(&mut buf).unwrap();
    let base: Vec<u64> = buf.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    assert!(base.len() == m);
    let ws: Vec<Option<Box<dyn World>>> = (0..WORLDS).map(|w| al.iter().any(|l| l.0 as usize == w).then(|| world(w))).collect();
    let mut o = Out::new();
    let mut calls = 0u64;
    let mut word = vec![0usize; len];
    word[0] = a;
    let mut past: [usize; 4] = [usize::MAX; 4];
    loop {
        for &x in &word {
            let h = call(&ws, al[x], &mut o);
            calls += 1;
            if h != base[x] {
                print!("bad {calls} {x}");
                for p in past.iter().filter(|p| **p != usize::MAX) {
                    print!(" {p}");
                }
                return;
            }
            past.rotate_left(1);
            past[3] = x;
        }
        // next word with the same first letter
        let mut i = len - 1;
        loop {
            if i == 0 && !group {
                word[0] = m;
            } else {
                word[i] += 1;
            }
            if word[i] < m {
                break;
            }
            if i == 0 {
                print!("ok {calls}");
                for w in &ws {
                    print!(" {:016x}", w.as_ref().map_or(0, |w| w.fingerprint()));
                }
                return;
            }
            word[i] = 0;
            i -= 1;
        }
    }
}

/// Only the arc lengths depend on large step counts.
fn order_pars(long: usize) -> &'static [Par] {
    match long {
        0 => &special::PARS,
        1 => &special::LONG[..3],
        _ => &special::LONG[3..],
    }
}
fn order_ops(w: &dyn World, long: usize) -> Vec<usize> {
    let mut o = Out::new();
    o.dry = true;
    (0..w.ops())
        .filter(|k| {
            w.step(*k, PARS[0], &mut o);
            long == 0 || o.name.contains("arclen")
        })
        .collect()
}
/// Every operation on some object sets in special position, in one of several orders, twice in a row:
/// the results, listed in the same order always. Order 0: object by object; 1: operation by operation, backwards;
/// 2: parameter by parameter, starting in the middle.
fn ordered(from: usize, to: usize, order: usize, rounds: usize, every: usize, long: usize) -> Vec<u64> {
    let which: Vec<usize> = (from..to).filter(|k| special::wanted(*k, every)).collect();
    let mut ws: Vec<Option<Box<dyn World>>> = which.iter().map(|_| None).collect();
    // objects are made in the order, too
    let n = which.len();
    for k in 0..n {
        let k = match order {
            0 => k,
            1 => n - 1 - k,
            _ => (k + n / 2) % n,
        };
        ws[k] = Some(special::special(which[k]));
    }
    let mut calls = vec![];
    let ps = order_pars(long);
    for (i, w) in ws.iter().enumerate() {
        for k in order_ops(&**w.as_ref().unwrap(), long) {
            for p in 0..ps.len() {
                calls.push((i, k, p));
            }
        }
    }
    let mut at: Vec<usize> = (0..calls.len()).collect();
    match order {
        0 => {}
        1 => at.sort_by_key(|i| (usize::MAX - calls[*i].1, usize::MAX - calls[*i].2, usize::MAX - calls[*i].0)),
        _ => {
            at.sort_by_key(|i| (calls[*i].2, calls[*i].0, calls[*i].1));
            let m = at.len() / 2;
            at.rotate_left(m);
        }
    }
    let mut r = vec![0u64; calls.len() * rounds];
    let mut o = Out::new();
    for round in 0..rounds {
        for &i in &at {
            let (w, k, p) = calls[i];
            ws[w].as_ref().unwrap().step(k, ps[p], &mut o);
            r[round * calls.len() + i] = o.hash();
        }
    }
    r
}

fn orders(n: usize, chunk: usize, every: usize, long: usize) -> Suite {
    let chunks = (n + chunk - 1) / chunk;
    suite(
        format!("orders-{}{n}", ["", "long-", "longest-"][long]),
        format!("{n} object sets in special position, {chunk} at a time: every {} with {} parameter sets, object by object, operation by operation backwards, and from the middle, in a process of its own each, twice in a row: all results equal", if long > 0 { "arc length" } else { "operation" }, order_pars(long).len()),
        chunks as u64,
        move |i, ctx| {
            let from = i as usize * chunk;
            let to = (from + chunk).min(n);
            if !(from..to).any(|k| special::wanted(k, every)) {
                return Ok(());
            }
            let mut first: Vec<u8> = vec![];
            for (order, rounds) in [(0usize, 2usize), (1, 2), (2, 1)] {
                let b = child_bytes(&["order".into(), from.to_string(), to.to_string(), order.to_string(), rounds.to_string(), every.to_string(), long.to_string()], &[])?;
                if first.is_empty() {
                    first = b[..b.len() / 2].to_vec();
                }
                need!(b.len() == first.len() * rounds && !b.is_empty(), "no results from the process of object sets {from}..{to}");
                for r in 0..rounds {
                    let part = &b[r * first.len()..(r + 1) * first.len()];
                    if part != &first[..] {
                        let k = (0..first.len() / 8).find(|k| part[k * 8..k * 8 + 8] != first[k * 8..k * 8 + 8]).unwrap();
                        let mut j = k;
                        let mut o = Out::new();
                        for w in (from..to).filter(|k| special::wanted(*k, every)) {
                            let x = special::special(w);
                            let (ops, ps) = (order_ops(&*x, long), order_pars(long));
                            let n = ops.len() * ps.len();
                            if j < n {
                                let q = ps[j % ps.len()];
                                x.step(ops[j / ps.len()], q, &mut o);
                                crate::bail!("{} with t={:?}, n={}, tol={:?} on {} returns one value in one order of calls and another in another (order {order}, round {r}; call {k} of object sets {from}..{to})", o.name, q.t, q.n, q.tol, special::show(w));
                            }
                            j -= n;
                        }
                    }
                    ctx.trans(first.len() as u64 / 8);
                }
                ctx.trace();
            }
            ctx.state();
            ctx.class_n("calls compared between orders", first.len() as u64 / 8);
            ctx.outcome(u64::from_le_bytes(first[..8].try_into().unwrap()));
            Ok(())
        },
    )
    .must(&["calls compared between orders"])
}

/// One operation on all siblings: with one parameter set on each of the three dimensions, or with all
/// parameter sets on a few.
fn group_letters(mode: &str, tier: Tier, op: usize) -> Vec<(u16, u16, u8)> {
    let mut v = vec![];
    let (lo, hi, step) = match mode {
        "sib1" => (8 + 2 * SIBLINGS, 8 + 3 * SIBLINGS, 1),
        "sib2" => (8, 8 + SIBLINGS, 1),
        "sib3" => (8 + SIBLINGS, 8 + 2 * SIBLINGS, 1),
        _ => (8, 8 + SIBLINGS, 4),
    };
    for w in (lo..hi).step_by(step) {
        for p in 0..PARS.len() {
            if p == 0 || step > 1 && (tier == Tier::Thorough || p > 2) || tier == Tier::Thorough && p == 3 {
                v.push((w as u16, op as u16, p as u8));
            }
        }
    }
    v
}

fn groups(name: &str, len: usize, mode: &'static str, tier: Tier) -> Suite {
    let tn = match tier {
        Tier::Small => "small",
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let ops = world(8).ops();
    let m = group_letters(mode, tier, 0).len();
    suite(
        name,
        format!("for each of {ops} operations every sequence of {len} of its {m} calls on sibling objects (one coordinate, knot gap or query changed, or equal lengths, sums, ends) and neighbouring parameters, against fresh processes"),
        ops as u64,
        move |i, ctx| {
            let al = group_letters(mode, tier, i as usize);
            let mut base = vec![];
            for l in &al {
                base.push(one(*l)?);
            }
            let input: Vec<u8> = base.iter().flat_map(|b| b.0.to_le_bytes()).collect();
            let s = child(&["group".into(), len.to_string(), mode.into(), tn.into(), i.to_string()], &input)?;
            let f: Vec<&str> = s.split(' ').collect();
            if f[0] == "bad" {
                let x: usize = f[2].parse().unwrap();
                let past: Vec<String> = f[3..].iter().map(|p| describe(al[p.parse::<usize>().unwrap()])).collect();
                crate::bail!("call {} of the process, {}, does not return what it returns first in a fresh process; the calls before it were {}", f[1], describe(al[x]), past.join(", "));
            }
            need!(f[0] == "ok", "no result from the process of operation {i}");
            for (w, h) in f[2..].iter().enumerate() {
                if let Some(k) = al.iter().position(|l| l.0 as usize == w) {
                    need!(*h == format!("{:016x}", base[k].1), "after many calls of {}, object set {w} is not what it was", describe(al[k]));
                }
            }
            let calls: u64 = f[1].parse().unwrap();
            ctx.trans(calls);
            ctx.state();
            for _ in 0..calls / len as u64 {
                ctx.trace();
            }
            let mut distinct: Vec<u64> = base.iter().map(|b| b.0).collect();
            distinct.sort();
            distinct.dedup();
            if distinct.len() > m / 8 {
                ctx.class("operations that tell siblings apart");
            }
            ctx.outcome(base[0].0);
            Ok(())
        },
    )
    .must(&["operations that tell siblings apart"])
}

fn child(args: &[String], input: &[u8]) -> Result<String, Violation> {
    Ok(String::from_utf8_lossy(&child_bytes(args, input)?).into_owned())
}
fn child_bytes(args: &[String], input: &[u8]) -> Result<Vec<u8>, Violation> {
    let exe = std::env::current_exe().map_err(|e| Violation(format!("current_exe: {e}")))?;
    let mut c = Command::new(exe)
        .arg("--fresh")
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    {
        let mut i = c.stdin.take().unwrap();
        let _ = i.write_all(input);
    }
    let out = c.wait_with_output().expect("wait");
    need!(out.status.success(), "the process running {args:?} ended with {:?}: a call panicked", out.status);
    Ok(out.stdout)
}
fn one(l: (u16, u16, u8)) -> Result<(u64, u64), Violation> {
    let s = child(&["one".into(), l.0.to_string(), l.1.to_string(), l.2.to_string()], &[])?;
    need!(s.len() == 32, "{}: no result from a fresh process", describe(l));
    Ok((u64::from_str_radix(&s[..16], 16).unwrap(), u64::from_str_radix(&s[16..], 16).unwrap()))
}

/// What each letter returns as the first call of a process.
fn baseline(al: &[(u16, u16, u8)]) -> Vec<(u64, u64)> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![(0, 0); al.len()]);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= al.len() {
                    break;
                }
                // a failing call is reported by the first suite
                let r = one(al[i]).unwrap_or((1, 1));
                out.lock().unwrap()[i] = r;
            });
        }
    });
    out.into_inner().unwrap()
}

fn words(name: &str, len: usize, mode: &'static str, tier: Tier, al: Arc<Vec<(u16, u16, u8)>>, base: Arc<Vec<(u64, u64)>>) -> Suite {
    let tn = match tier {
        Tier::Small => "small",
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let m = al.len();
    suite(
        name,
        format!("every sequence of {len} of {m} operations (operation x object x parameters); each first operation gets a process of its own, and all sequences starting with it run there one after the other"),
        m as u64,
        move |i, ctx| {
            let input: Vec<u8> = base.iter().flat_map(|b| b.0.to_le_bytes()).collect();
            let s = child(&["words".into(), len.to_string(), mode.into(), tn.into(), i.to_string()], &input)?;
            let f: Vec<&str> = s.split(' ').collect();
            if f[0] == "bad" {
                let x: usize = f[2].parse().unwrap();
                let past: Vec<String> = f[3..].iter().map(|p| describe(al[p.parse::<usize>().unwrap()])).collect();
                crate::bail!("call {} of the process, {}, does not return what it returns first in a fresh process; the calls before it were {}", f[1], describe(al[x]), past.join(", "));
            }
            need!(f[0] == "ok", "no result from the process of {}", describe(al[i as usize]));
            for (w, h) in f[2..].iter().enumerate() {
                if let Some(k) = al.iter().position(|l| l.0 as usize == w) {
                    need!(*h == format!("{:016x}", base[k].1), "after the calls starting with {}, object set {w} is not what it was", describe(al[i as usize]));
                }
            }
            let calls: u64 = f[1].parse().unwrap();
            ctx.trans(calls);
            ctx.state();
            for _ in 0..calls / len as u64 {
                ctx.trace();
            }
            ctx.outcome(base[i as usize].0);
            ctx.class_n("calls compared with a fresh process", calls);
            if i == 5 {
                ctx.sample(|| format!("{} first, then every continuation: {calls} calls", describe(al[5])));
            }
            Ok(())
        },
    )
    .must(&["calls compared with a fresh process"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let al = Arc::new(letters(tier));
    let base = Arc::new(baseline(&al));
    let core = Arc::new(core_letters(tier));
    let cb: Arc<Vec<(u64, u64)>> = Arc::new(core.iter().map(|l| al.iter().position(|x| x == l).map_or_else(|| one(*l).unwrap_or((1, 1)), |k| base[k])).collect());
    let mut v = vec![];
    let (a, b) = (al.clone(), base.clone());
    v.push(suite(
        "first-call",
        format!("each of {} operations twice as the first call of a fresh process", al.len()),
        al.len() as u64,
        move |i, ctx| {
            let r = one(a[i as usize])?;
            need!(r == b[i as usize], "{} returns something else in a second fresh process", describe(a[i as usize]));
            // every object set looks the same after any single first call
            let k = a.iter().position(|l| l.0 == a[i as usize].0).unwrap();
            need!(r.1 == b[k].1, "{} changes an object", describe(a[i as usize]));
            ctx.state();
            ctx.trans(1);
            ctx.trace();
            ctx.outcome(r.0);
            Ok(())
        },
    ));
    v.push(words("pairs", 2, "all", tier, al.clone(), base.clone()));
    let la = Arc::new(long_letters(tier));
    let lb = Arc::new(baseline(&la));
    v.push(words("long-pairs", 2, "long", tier, la, lb));
    v.push(orders(tier.pick(11 * 20, special::SPECIALS, special::SPECIALS), 11, tier.pick(20, 8, 1), 0));
    v.push(orders(tier.pick(22, 11 * 60, special::SPECIALS / 10), 11, 4, 1));
    v.push(orders(tier.pick(2, 24, special::SPECIALS / 50), 2, 4, 2));
    let l = tier.pick(2, 2, 3);
    v.push(groups("siblings-2d", l, "sib2", tier));
    v.push(groups("siblings-3d", 2, "sib3", tier));
    v.push(groups("siblings-1d", 2, "sib1", tier));
    v.push(groups("neighbouring-parameters", 2, "par", tier));
    if tier == Tier::Thorough {
        let mid = Arc::new(mid_letters(tier));
        let mb = Arc::new(mid.iter().map(|l| base[al.iter().position(|x| x == l).unwrap()]).collect());
        v.push(words("triples", 3, "mid", tier, mid, mb));
        v.push(words("core-quadruples", 4, "core", tier, core.clone(), cb.clone()));
    } else {
        v.push(words("core-triples", 3, "core", tier, core.clone(), cb.clone()));
    }
    v
}
