//! What the generated programs share: bodies that tell what they were given, and the judge.
use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::JsonPath;

pub trait Tell {
    fn tell(&self) -> String;
}
impl Tell for ValueType<'_> {
    fn tell(&self) -> String {
        format!("V{}", self.as_value().map(|v| v.to_string()).unwrap_or_default())
    }
}
impl Tell for NodesType<'_> {
    fn tell(&self) -> String {
        format!("N{}", self.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("."))
    }
}
impl Tell for LogicalType {
    fn tell(&self) -> String {
        format!("L{}", *self == LogicalType::True)
    }
}

pub trait Answer {
    fn answer(told: &[String], expected: &str) -> Self;
}
impl Answer for ValueType<'_> {
    fn answer(told: &[String], _: &str) -> Self {
        Value::from(told.join(",")).into()
    }
}
impl Answer for NodesType<'_> {
    fn answer(told: &[String], _: &str) -> Self {
        let v: &'static Value = Box::leak(Box::new(Value::from(told.join(","))));
        vec![v].into()
    }
}
impl Answer for LogicalType {
    fn answer(told: &[String], expected: &str) -> Self {
        (told.join(",") == expected).into()
    }
}

/// id, queries that select the one element, queries that select nothing, strings that are no queries
pub type Case = (&'static str, &'static [&'static str], &'static [&'static str], &'static [&'static str]);

pub fn judge(cases: &[Case]) {
    let doc = json!({"d": [0], "n": (0..200).collect::<Vec<i32>>(), "t": 1});
    let mut n = 0;
    for (id, yes, no, bad) in cases {
        for (qs, want) in [(yes, 1), (no, 0)] {
            for q in *qs {
                n += 1;
                match JsonPath::parse(q) {
                    Ok(p) if p.query(&doc).len() == want => (),
                    Ok(p) => println!("FAIL {id} {q} selects {} elements, not {want}", p.query(&doc).len()),
                    Err(e) => println!("FAIL {id} {q} is rejected: {e}"),
                }
            }
        }
        for q in *bad {
            n += 1;
            if JsonPath::parse(q).is_ok() {
                println!("FAIL {id} {q} is accepted");
            }
        }
    }
    println!("DONE {n}");
}
