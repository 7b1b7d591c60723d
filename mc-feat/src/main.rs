//! One build of the crate with one combination of features, evaluating an enumerated corpus.
//!
//!   mc-feat run TIER LEVEL OUT    one record for each query: a status byte and a digest (8 bytes)
//!   mc-feat list TIER OUT         the queries, as JSON
//!   mc-feat show LEVEL QUERY.json what becomes of one query, in words
//!
//! LEVEL: none, or the most verbose level a subscriber is interested in.

mod corpus;
#[cfg(feature = "functions")]
mod custom;
#[cfg(feature = "subscriber")]
mod listen;

use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// all that can be seen of a query: whether it is accepted, and everything else in words
fn outcome(q: &str, docs: &[Value]) -> (u8, String) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = match JsonPath::parse(q) {
            Ok(p) => p,
            Err(e) => return (0, format!("rejected: {e} at {} {:?}", e.position(), q.parse::<JsonPath>().is_ok())),
        };
        let mut s = format!("accepted: {p} {} {}\n", json!(p), serde_json::from_value::<JsonPath>(json!(q)).map(|x| x == p).unwrap_or(false));
        // the last document, of long texts, is for some of the queries
        let some = docs.len() - !(q.len() % 8 == 0 || q.len() > 60) as usize;
        for d in &docs[..some] {
            let l = p.query_located(d);
            for n in l.iter() {
                s += &format!("{} {}\n", n.location(), n.location().to_json_pointer());
            }
            let n = p.query(d);
            s += &format!("{} {} {:?} {:?} {:?} {}\n", json!(n), n.len(), n.first(), n.exactly_one().is_ok(), n.at_most_one().is_ok(), l.dedup().len());
        }
        (1, s)
    }));
    r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        (2, format!("panics: {}", m.unwrap_or_default()))
    })
}

fn subscribe(level: &str) {
    #[cfg(feature = "subscriber")]
    if level != "none" {
        tracing::subscriber::set_global_default(listen::listener(level)).unwrap();
    }
    let _ = level;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let docs = corpus::docs();
    match a[1].as_str() {
        "run" => {
            std::panic::set_hook(Box::new(|_| {}));
            subscribe(&a[3]);
            let qs = corpus::queries(a[2] == "thorough");
            let next = AtomicUsize::new(0);
            const CHUNK: usize = 512;
            let k = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
            let parts: Vec<Vec<(usize, u8, u64)>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..k)
                    .map(|_| {
                        s.spawn(|| {
                            let mut v = vec![];
                            loop {
                                let i = next.fetch_add(CHUNK, SeqCst);
                                if i >= qs.len() {
                                    return v;
                                }
                                for (j, q) in qs.iter().enumerate().skip(i).take(CHUNK) {
                                    let (st, text) = outcome(q, &docs);
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    text.hash(&mut h);
                                    v.push((j, st, h.finish()));
                                }
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut out = vec![0u8; qs.len() * 9];
            for (i, st, h) in parts.into_iter().flatten() {
                out[i * 9] = st;
                out[i * 9 + 1..i * 9 + 9].copy_from_slice(&h.to_le_bytes());
            }
            std::fs::write(&a[4], out).unwrap();
        }
        "list" => std::fs::write(&a[3], json!(corpus::queries(a[2] == "thorough")).to_string()).unwrap(),
        "show" => {
            std::panic::set_hook(Box::new(|_| {}));
            subscribe(&a[2]);
            let q: String = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            println!("{}", json!(outcome(&q, &docs)));
        }
        _ => panic!("usage"),
    }
}
