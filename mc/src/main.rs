//! Bounded exhaustive model checking of serde_json_path against a reference model.
//!
//!   mc run  PROPERTY TIER OUT.json [SLOTS]        explore every phase
//!   mc unit PROPERTY TIER PHASE UNIT LOG OUT.json explore one unit, logging each case first
//!   mc one  PROPERTY CASE.json                    judge one case (exit 0: holds, 1: violated)
//!   mc show PROPERTY TIER                         list the phases

mod ast;
mod custom;
mod earley;
mod engine;
mod eval;
mod funcs;
mod gen;
mod iregexp;
mod judge;
#[cfg(feature = "overrides")]
mod overrides;
mod props;
mod refparse;

use engine::{Case, Judged, RunOpts, Stats};
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    if cfg!(feature = "overrides") {
        funcs::OVERRIDDEN.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let secs = |name: &str, d: u64| {
        Duration::from_secs(std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(d))
    };
    let (deadline, stall) = (secs("MC_DEADLINE", 600), secs("MC_STALL", 20));
    match arg(1) {
        "run" | "unit" => {
            let thorough = arg(3) == "thorough";
            let phases = props::phases(arg(2), thorough);
            let (only, out, slots) = if arg(1) == "unit" {
                let n = |i: usize| arg(i).parse::<usize>().unwrap();
                (Some((n(4), n(5), arg(6))), arg(7), None)
            } else {
                (None, arg(4), a.get(5).map(|s| s.as_str()))
            };
            let r = engine::run(phases, RunOpts { slots, only, deadline, stall });
            std::fs::write(out, serde_json::to_string(&r).unwrap()).unwrap();
        }
        "one" => {
            engine::install_panic_hook();
            let prop = arg(2).to_string();
            let case: Case =
                serde_json::from_str(&std::fs::read_to_string(arg(3)).unwrap()).unwrap();
            let code = std::thread::Builder::new()
                .stack_size(if case.kind == "deep" { 8 << 20 } else { 256 << 20 })
                .spawn(move || {
                    let mut st = Stats::default();
                    match engine::judge(&mut |st| props::judge(&prop, &case, st), &mut st) {
                        Judged::Ok => {
                            println!("holds");
                            0
                        }
                        Judged::Violation(m) => {
                            println!("violated: {m}");
                            1
                        }
                        Judged::Harness(m) => {
                            println!("harness error: {m}");
                            3
                        }
                    }
                })
                .unwrap()
                .join()
                .unwrap_or(3);
            std::process::exit(code);
        }
        "show" => {
            for p in props::phases(arg(2), arg(3) == "thorough") {
                println!("{}: {} units; {}", p.name, p.n, p.bound);
            }
        }
        _ => panic!("usage"),
    }
}
