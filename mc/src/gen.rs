//! Enumerations of documents, values and query pieces.

use serde_json::{Map, Value};

/// all documents with exactly 1, 2, ... `max` nodes, over the given member names and scalars
pub fn docs(max: usize, keys: &[&str], leaves: &[Value]) -> Vec<Value> {
    let mut by: Vec<Vec<Value>> = vec![vec![]];
    for n in 1..=max {
        let mut out = vec![];
        if n == 1 {
            out.extend(leaves.iter().cloned());
        }
        let mut seq = vec![];
        sequences(&by, n - 1, &mut vec![], &mut seq);
        for s in seq {
            out.push(Value::Array(s));
        }
        let mut objs = vec![];
        members(&by, keys, n - 1, &mut Map::new(), &mut objs);
        out.extend(objs.into_iter().map(Value::Object));
        by.push(out);
    }
    by.into_iter().flatten().collect()
}

fn sequences(by: &[Vec<Value>], n: usize, cur: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    if n == 0 {
        out.push(cur.clone());
        return;
    }
    for k in 1..=n {
        for v in &by[k] {
            cur.push(v.clone());
            sequences(by, n - k, cur, out);
            cur.pop();
        }
    }
}

fn members(
    by: &[Vec<Value>],
    keys: &[&str],
    n: usize,
    cur: &mut Map<String, Value>,
    out: &mut Vec<Map<String, Value>>,
) {
    if n == 0 {
        out.push(cur.clone());
        return;
    }
    for (i, key) in keys.iter().enumerate() {
        for k in 1..=n {
            for v in &by[k] {
                cur.insert(key.to_string(), v.clone());
                members(by, &keys[i + 1..], n - k, cur, out);
                cur.remove(*key);
            }
        }
    }
}

/// all tuples of length `k` over `items`, by index: the `i`-th of `items.len()^k`
pub fn tuple(i: usize, k: usize, n: usize) -> Vec<usize> {
    let mut i = i;
    let mut v = vec![];
    for _ in 0..k {
        v.push(i % n);
        i /= n;
    }
    assert_eq!(i, 0, "out of the range of the tuples");
    v
}

/// a double-quoted or single-quoted literal for any string
pub fn quote(s: &str, q: char) -> String {
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            c if c == q => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push(q);
    o
}

/// a value with one node of every kind, nested
pub fn kinds() -> Vec<Value> {
    use serde_json::json;
    vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(1),
        json!(-1.5),
        json!(""),
        json!("a"),
        json!([]),
        json!([1]),
        json!({}),
        json!({"a": 1}),
    ]
}

/// chain of nested arrays or objects of the given depth, with a scalar at the end
pub fn nest(depth: usize, object: &dyn Fn(usize) -> Option<String>, leaf: Value) -> Value {
    let mut v = leaf;
    for d in (0..depth).rev() {
        v = match object(d) {
            Some(k) => {
                let mut m = Map::new();
                m.insert(k, v);
                Value::Object(m)
            }
            None => Value::Array(vec![v]),
        };
    }
    v
}

/// the powers of two from 2^8 to `max`, and their neighbours: where a length kept in a small integer wraps round
pub fn powers(max: usize) -> Vec<usize> {
    (8..=17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n <= max + 1).collect()
}

/// pieces of query syntax, for names and literals that look like parts of a query
pub const SYNTAX: &[&str] = &[
    "$", "@", ".", "..", "[", "]", "*", ",", ", ", ":", "?", "!", "(", ")", "&&", " && ", "||", " || ", "==", " == ", "!=", " != ", "<", " < ", "<=", " <= ", ">", " >= ", "'", "\"", "\\", "a", "0", "-1", " ", "true", "['", "']", "[?@", "length(", "\\u0041",
    "\\n", "~", "/", "1e5", "1.0", "#", "%", "é", "  ", "( ", " )", " ]", "[ ", "{", "}",
];

/// all strings of up to `k` pieces of syntax that begin with the given one
pub fn syntax_strings(first: usize, k: usize) -> Vec<String> {
    let n = SYNTAX.len();
    let mut v = vec![];
    for l in 0..k {
        for i in 0..n.pow(l as u32) {
            v.push(std::iter::once(first).chain(tuple(i, l, n)).map(|i| SYNTAX[i]).collect());
        }
    }
    v
}
