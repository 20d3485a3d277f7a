//! Entry point of the 32-bit build: the suites of C01..C15 and of C21, driven by run32.mjs.
use crate::core::*;

#[link(wasm_import_module = "host")]
extern "C" {
    fn emit(kind: u32, ptr: *const u8, len: usize);
    /// first case of the next chunk of this suite (as f64), or a negative number
    fn claim(suite: u32, chunk: u32, n: f64) -> f64;
    /// the case about to run
    fn at(suite: u32, idx: f64);
}
fn say(kind: u32, s: &str) {
    unsafe { emit(kind, s.as_ptr(), s.len()) }
}

fn all(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for id in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"] {
        let t = if tier == Tier::Thorough { Tier::Quick } else { Tier::Small };
        for mut s in crate::suites(id, t).unwrap() {
            s.name = format!("{id}:{}", s.name);
            v.push(s);
        }
    }
    v.extend(crate::c21::suites(tier));
    v
}
fn tier(t: u32) -> Tier {
    match t {
        0 => Tier::Small,
        1 => Tier::Quick,
        _ => Tier::Thorough,
    }
}

#[no_mangle]
pub extern "C" fn describe(t: u32) {
    for s in all(tier(t)) {
        say(3, &format!("{}\t{}\t{}\t{}", s.name, s.n, s.space.replace(['\t', '\n'], " "), s.must.join("|")));
    }
}

#[no_mangle]
pub extern "C" fn run(t: u32) {
    std::panic::set_hook(Box::new(|i| say(2, &format!("{i}").replace('\n', " "))));
    for (k, s) in all(tier(t)).iter().enumerate() {
        let mut ctx = Ctx::new();
        let chunk = (s.n / 256).clamp(1, 256) as u32;
        let mut best: Option<(u64, String)> = None;
        let t0 = 0;
        let _ = t0;
        'suite: loop {
            let lo = unsafe { claim(k as u32, chunk, s.n as f64) };
            if lo < 0.0 {
                break;
            }
            let lo = lo as u64;
            for i in lo..(lo + chunk as u64).min(s.n) {
                unsafe { at(k as u32, i as f64) };
                if let Err(Violation(w)) = run_case(s, i, &mut ctx) {
                    best = Some((i, w));
                    break 'suite;
                }
            }
        }
        let bits: u64 = ctx.outcomes.iter().map(|x| x.count_ones() as u64).sum();
        let cl: Vec<String> = ctx.classes.iter().map(|(k, v)| format!("{k}={v}")).collect();
        say(0, &format!("{k}\t{}\t{}\t{}\t{bits}\t{}\t{}", ctx.states, ctx.transitions, ctx.traces, cl.join("|"), ctx.samples.join(" ; ").replace(['\t', '\n'], " ")));
        if let Some((i, w)) = best {
            say(1, &format!("{}\t{i}\t{}", s.name, w.replace(['\t', '\n'], " ")));
            return;
        }
    }
}

#[no_mangle]
pub extern "C" fn replay(t: u32, suite: u32, idx: f64) {
    std::panic::set_hook(Box::new(|i| say(2, &format!("{i}").replace('\n', " "))));
    let v = all(tier(t));
    let mut ctx = Ctx::new();
    match run_case(&v[suite as usize], idx as u64, &mut ctx) {
        Ok(()) => say(4, "case passes"),
        Err(Violation(w)) => say(1, &format!("{}\t{idx}\t{w}", v[suite as usize].name)),
    }
}
