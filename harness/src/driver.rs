//! Native command line: mc <ID> <quick|thorough> [--replay SUITE#IDX]
use crate::core::native;
use crate::core::*;
use std::fmt::Write as _;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn evidence(id: &str, tier: &str, tot: &Totals, wall: f64, violations: u64, extra: &[(String, String)]) {
    let mut j = String::new();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = write!(
        j,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n",
        esc(id),
        esc(tier),
        seed
    );
    let _ = write!(
        j,
        "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases\": {}, \"distinct_outcomes_at_least\": {}, \"exhaustive\": {},\n",
        tot.states, tot.transitions, tot.traces, tot.cases, tot.outcomes, violations == 0
    );
    let _ = write!(j, "  \"explanation\": {},\n", esc("States are library objects (with their model counterpart) reached and checked; transitions are library calls compared with the model; traces are complete histories (start object, calls, end) replayed on the implementation, which is the only thing executed: there is no separate model to drift from it. Every suite enumerates its whole space; random choice is not used, so the seed has no effect."));
    j.push_str("  \"suites\": [");
    for (i, (n, s, c, w)) in tot.suites.iter().enumerate() {
        let _ = write!(
            j,
            "{}\n   {{\"name\": {}, \"space\": {}, \"cases\": {}, \"wall_s\": {:.2}}}",
            if i > 0 { "," } else { "" },
            esc(n),
            esc(s),
            c,
            w
        );
    }
    j.push_str("],\n  \"situations\": {");
    for (i, (k, v)) in tot.classes.iter().enumerate() {
        let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    j.push_str("},\n");
    for (k, v) in extra {
        let _ = write!(j, "  {}: {},\n", esc(k), v);
    }
    j.push_str("  \"samples\": [");
    for (i, s) in tot.samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, esc(s));
    }
    let _ = write!(j, "]\n }},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, violations);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, id), j).expect("write evidence");
}

fn report(id: &str, tier: &str, f: &Failure) {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let body = format!(
        "property: {id}\nsuite: {}\ncase: {}\nwhat: {}\nreplay: ./check.sh {id} {tier} --replay '{}#{}'\n",
        f.suite, f.idx, f.what, f.suite, f.idx
    );
    let _ = std::fs::write(&path, body);
    println!("{}: suite {} case {}: {}", id, f.suite, f.idx, f.what);
    println!("VIOLATION property={} replay={}", id, path);
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "c18")]
    if args.len() > 2 && args[1] == "--fresh" {
        crate::c18::fresh(&args[2..]);
        return;
    }
    #[cfg(feature = "c28")]
    if args.len() > 2 && args[1] == "--stream" {
        crate::c28::stream(&args[2..]);
        return;
    }
    #[cfg(feature = "c27")]
    if args.len() > 2 && args[1] == "--overlap" {
        crate::c27::fresh(&args[2..]);
        return;
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let tier_s = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let tier = match tier_s.as_str() {
        "small" => Tier::Small,
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    install_panic_hook();
    let t0 = Instant::now();
    let suites = match std::panic::catch_unwind(|| crate::suites(&id, tier)) {
        Ok(Some(s)) => s,
        Err(_) => {
            eprintln!("{id}: preparing the suites panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()));
            std::process::exit(2)
        }
        Ok(None) => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    };
    if let Some(p) = args.iter().position(|a| a == "--replay") {
        let (sn, ix) = args[p + 1].rsplit_once('#').expect("SUITE#IDX");
        let s = suites.iter().find(|s| s.name == sn).expect("suite");
        let mut ctx = Ctx::new();
        match run_case(s, ix.parse().unwrap(), &mut ctx) {
            Ok(()) => println!("case passes"),
            Err(Violation(w)) => {
                println!("case fails: {w}");
                std::process::exit(1)
            }
        }
        return;
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let (id2, tier2) = (id.clone(), tier_s.clone());
    let r = native::run(&suites, threads, move |f| {
        report(&id2, &tier2, &f);
        let mut tot = Totals::default();
        tot.samples.push(f.what.clone());
        evidence(&id2, &tier2, &tot, t0.elapsed().as_secs_f64(), 1, &[]);
        std::process::exit(1)
    });
    let wall = t0.elapsed().as_secs_f64();
    match r {
        Ok(tot) => {
            evidence(&id, &tier_s, &tot, wall, 0, &[]);
            let mut vac = false;
            for s in &suites {
                for m in &s.must {
                    if tot.classes.get(*m).copied().unwrap_or(0) == 0 {
                        eprintln!("{id}: situation '{m}' never occurred in suite {}: vacuous", s.name);
                        vac = true;
                    }
                }
            }
            if std::env::var("MC_TIMES").is_ok() {
                for (n, _, c, w) in &tot.suites {
                    println!("  {n}: {c} cases, {w:.2} s");
                }
            }
            println!(
                "{id}: held on {} cases, {} states, {} transitions, {} traces, >= {} distinct outcomes, {:.1} s",
                tot.cases, tot.states, tot.transitions, tot.traces, tot.outcomes, wall
            );
            if vac {
                std::process::exit(2)
            }
        }
        Err((tot, f)) => {
            evidence(&id, &tier_s, &tot, wall, 1, &[]);
            report(&id, &tier_s, &f);
            std::process::exit(1)
        }
    }
}
