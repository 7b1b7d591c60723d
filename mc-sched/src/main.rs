//! Executions of the real code whose schedule, history or effort is controlled.
//!
//!   mc-sched threads TIER OUT.json      C21: interleavings of threads
//!   mc-sched history TIER OUT.json      C20: sequences of operations in one process
//!   mc-sched work TIER OUT.json         C23: effort of parsing and evaluating
//!   mc-sched one CASE.json              judge one case again (exit 0: holds, 1: violated)

mod history;
mod pool;
mod sched;
mod threads;
mod work;

use serde_json::{json, Value};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(2).is_some_and(|t| t == "thorough");
    pool::out_of_time();
    let report = match a[1].as_str() {
        "threads" => threads::run(thorough),
        "history" => history::run(thorough),
        "work" => work::run(thorough),
        "repeat" => {
            threads::repeat(&a[2]);
            return;
        }
        "one" => {
            let c: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = match c["kind"].as_str().unwrap() {
                "threads" => threads::one(&c),
                "history" => history::one(&c),
                _ => work::one(&c),
            };
            match r {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("violated: {m}");
                    std::process::exit(1);
                }
            }
            return;
        }
        _ => panic!("usage"),
    };
    std::fs::write(&a[3], json!(report).to_string()).unwrap();
}
