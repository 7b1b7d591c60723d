//! C04 comparisons.

use crate::engine::{phase, Ctx, Phase};
use crate::gen::{docs, quote};
use crate::judge::eval_all;
use serde_json::{json, Value};
use std::sync::Arc;

pub const OPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];

/// an operand: a value, or absent, and the literals that denote it
#[derive(Clone)]
pub struct Val {
    pub v: Option<Value>,
    pub lits: Vec<String>,
}

fn num(v: Value, lits: &[&str]) -> Val {
    Val { v: Some(v), lits: lits.iter().map(|s| s.to_string()).collect() }
}

pub fn values(thorough: bool) -> Vec<Val> {
    let mut out = vec![Val { v: None, lits: vec![] }];
    for (v, l) in [(json!(null), "null"), (json!(true), "true"), (json!(false), "false")] {
        out.push(num(v, &[l]));
    }
    out.push(num(json!(0), &["0", "-0", "0.0", "0e5", "-0.0", "0.00e-3"]));
    out.push(num(json!(0.0), &["0.0"]));
    out.push(num(json!(-0.0), &["-0.0"]));
    out.push(num(json!(1), &["1", "1.0", "1e0", "10e-1", "0.1e1", "1E+0"]));
    out.push(num(json!(1.0), &["1.00"]));
    out.push(num(json!(-1), &["-1", "-1.0", "-10e-1"]));
    out.push(num(json!(-1.0), &["-1e0"]));
    out.push(num(json!(2), &["2"]));
    out.push(num(json!(1.5), &["1.5", "15e-1", "0.15E1"]));
    out.push(num(json!(-1.5), &["-1.5"]));
    out.push(num(json!(0.5), &["0.5", "5e-1"]));
    out.push(num(json!(100), &["100", "1e2", "1E2", "1.0e2", "1e+2", "1000e-1"]));
    out.push(num(json!(100.0), &["100.0"]));
    out.push(num(json!(9), &["9"]));
    out.push(num(json!(10), &["10"]));
    out.push(num(json!(9007199254740991i64), &["9007199254740991"]));
    out.push(num(json!(9007199254740990i64), &["9007199254740990"]));
    out.push(num(json!(9007199254740991.0), &["9007199254740991.0"]));
    out.push(num(json!(-9007199254740991i64), &["-9007199254740991"]));
    out.push(num(json!(4294967296i64), &["4294967296"]));
    out.push(num(json!(4294967297i64), &["4294967297"]));
    out.push(num(json!(2147483648i64), &["2147483648"]));
    out.push(num(json!(16777217), &["16777217"]));
    out.push(num(json!(16777216), &["16777216"]));
    out.push(num(json!(0.25), &["0.25"]));
    for s in [
        "", "a", "b", "ab", "aa", "A", "Z", "z", "1", "10", "2", "null", "true", " ", "a ", "é", "e\u{301}", "\u{7f}",
        "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "😀", "\u{10ffff}", "a\u{0}",
        "a'b\"c\\", "ß", "ss",
    ] {
        out.push(Val { v: Some(json!(s)), lits: vec![quote(s, '\''), quote(s, '"')] });
    }
    let (n, leaves) = if thorough {
        (4, vec![json!(1), json!(1.0), json!("a")])
    } else {
        (3, vec![json!(1), json!(1.0), json!(null), json!("a")])
    };
    for d in docs(n, &["a", "b"], &leaves) {
        if d.is_array() || d.is_object() {
            out.push(Val { v: Some(d), lits: vec![] });
        }
    }
    for d in [
        json!([1, 2]), json!([2, 1]), json!([1.0, 2.0]), json!([1, 2, 3]), json!([[1], [2.0]]), json!([[1.0], [2]]),
        json!({"a": [1, {"b": 1.0}]}), json!({"a": [1.0, {"b": 1}]}), json!({"a": [1, {"b": 2}]}), json!({"a": 1, "b": 2, "c": 3}),
        json!({"c": 3.0, "b": 2.0, "a": 1.0}), json!({"a": 1, "b": 2, "d": 3}), json!([0, -0.0]), json!([-0.0, 0]), json!({"": 0}),
        json!({"": null}), json!([null]), json!([[]]), json!([{}]), json!([false]), json!(["1"]), json!({"a": {"a": {"a": {}}}}),
        json!({"a": {"a": {"a": []}}}), json!([[[[]]]]), json!([[[[], []]]]), json!([100]), json!([1e2]), json!({"a": -1.5}),
        json!({"a": -1.5, "b": null}),
    ] {
        out.push(Val { v: Some(d), lits: vec![] });
    }
    out
}

/// query and document for a comparison, with each operand in one of these forms
pub const FORMS: [&str; 8] = ["rel", "abs", "bracket", "index", "call-node", "call-value", "call-custom", "lit"];

fn operand(form: &str, side: &str, v: &Val) -> Vec<String> {
    match form {
        "rel" => vec![format!("@.{side}")],
        "abs" => vec![format!("$.x.{side}")],
        "bracket" => vec![format!("@['{side}']")],
        "index" => vec![format!("@.{side}s[1]")],
        "call-node" => vec![format!("x_v_v(@.{side})")],
        "call-value" => vec![format!("value(@..{side})")],
        "call-custom" => vec![format!("x_n_v(@['{side}'])")],
        "lit" => v.lits.clone(),
        _ => unreachable!(),
    }
}

fn put(doc: &mut Value, side: &str, v: &Val) {
    if let Some(v) = &v.v {
        doc[side] = v.clone();
        doc[format!("{side}s")] = json!(["other", v]);
    } else {
        doc[format!("{side}s")] = json!([]);
    }
}

pub fn pair_doc(l: &Val, r: &Val) -> Value {
    let mut e = json!({});
    put(&mut e, "l", l);
    put(&mut e, "r", r);
    json!({"x": e})
}

fn pair(cx: &mut Ctx, l: &Val, r: &Val, lf: &[&str], rf: &[&str]) {
    let doc = pair_doc(l, r);
    for lf in lf {
        for a in operand(lf, "l", l) {
            for rf in rf {
                for b in operand(rf, "r", r) {
                    for op in OPS {
                        eval_all(cx, &format!("$[?{a}{op}{b}]"), [&doc]);
                    }
                }
            }
        }
    }
}

pub fn c04(thorough: bool) -> Vec<Phase> {
    let vals = Arc::new(values(thorough));
    let n = vals.len();
    let mut ph = vec![];
    {
        // one query per operator, all pairs as one document's members
        let vals = vals.clone();
        ph.push(phase(
            "all pairs of values, as nodes",
            format!("{n} values (absent, scalars, strings, nested arrays and objects) squared x 6 operators"),
            n,
            move |u, cx| {
                let docs: Vec<Value> = vals.iter().map(|r| pair_doc(&vals[u], r)).collect();
                for op in OPS {
                    eval_all(cx, &format!("$[?@.l {op} @.r]"), docs.iter());
                    eval_all(cx, &format!("$[?!(@.l{op}@.r)]"), docs.iter());
                }
            },
        ));
    }
    {
        let vals = vals.clone();
        // literals of a value on each side
        ph.push(phase(
            "literal and node",
            format!("every literal of {n} values on either side x every value as node x 6 operators"),
            n,
            move |u, cx| {
                let v = &vals[u];
                let docs: Vec<Value> = vals.iter().map(|r| pair_doc(v, r)).collect();
                for l in &v.lits {
                    for op in OPS {
                        eval_all(cx, &format!("$[?{l}{op}@.r]"), docs.iter());
                        eval_all(cx, &format!("$[?@.r {op} {l}]"), docs.iter());
                        eval_all(cx, &format!("$[?@['r']{op} x_v_v({l})]"), docs.iter());
                    }
                }
            },
        ));
    }
    {
        // literal against literal
        let lits: Arc<Vec<String>> = Arc::new(vals.iter().flat_map(|v| v.lits.clone()).collect());
        let d = json!([1]);
        let m = lits.len();
        ph.push(phase(
            "literal and literal",
            format!("{m}^2 pairs of literals x 6 operators"),
            m,
            move |u, cx| {
                for r in lits.iter() {
                    for op in OPS {
                        eval_all(cx, &format!("$[?{}{op}{r}]", lits[u]), [&d]);
                    }
                }
            },
        ));
    }
    {
        // every pair of operand forms, for a representative subset of the values
        let reps: Vec<Val> = vals
            .iter()
            .enumerate()
            .filter(|(i, v)| {
                thorough && n < 400
                    || *i < 14
                    || i % 9 == 0
                    || matches!(&v.v, Some(Value::String(s)) if s.len() < 2)
                    || v.v == Some(json!([1]))
                    || v.v == Some(json!({"a": 1.0}))
            })
            .map(|(_, v)| v.clone())
            .collect();
        let m = reps.len();
        ph.push(phase(
            "operand forms",
            format!("{m}^2 pairs x {}^2 operand forms (nodes, literals, function results) x 6 operators", FORMS.len()),
            m * m,
            move |u, cx| pair(cx, &reps[u % m], &reps[u / m], &FORMS, &FORMS),
        ));
    }
    {
        // whole arrays compared through one filter, nested filters, and after && and ||
        let all = Value::Array(vals.iter().map(|v| v.v.clone().map_or(json!({}), |v| json!({"v": v}))).collect());
        let doc = json!({"a": all, "k": 1, "s": "b"});
        let qs: Vec<String> = OPS
            .iter()
            .flat_map(|op| {
                [
                    format!("$.a[?@.v {op} $.k]"),
                    format!("$.a[?$.s {op} @.v]"),
                    format!("$.a[?@.v {op} @.w]"),
                    format!("$.a[?@ {op} $.a[2]]"),
                    format!("$.a[?@.v {op} @['v']]"),
                    format!("$[?@[?@.v {op} 1]]"),
                    format!("$.a[?@.v {op} 1 && @.v {op} 2]"),
                    format!("$.a[?@.v {op} 1 || @.v {op} 'b']"),
                    format!("$.a[?@.v {op} length(@.v)]"),
                    format!("$.a[?count(@.*) {op} length(@.v)]"),
                    format!("$..[?@ {op} 1]"),
                    format!("$..[?@.v {op} $.a[7].v]"),
                ]
            })
            .collect();
        ph.push(phase(
            "in context",
            format!("{} queries on an array of all values", qs.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], [&doc]),
        ));
    }
    {
        // strings by length of common prefix and position of the first difference
        let max = if thorough { 130 } else { 70 };
        ph.push(phase(
            "sizes",
            format!("strings, arrays and objects of size 0..={max}, equal or differing at one place"),
            max + 1,
            move |n, cx| {
                let mut pairs = vec![];
                let s: String = "aé€😀".chars().cycle().take(n).collect();
                let arr: Vec<Value> = (0..n).map(|i| json!(i)).collect();
                let flt: Vec<Value> = (0..n).map(|i| json!(i as f64)).collect();
                let ob: serde_json::Map<String, Value> = (0..n).map(|i| (format!("k{i}"), json!(i))).collect();
                pairs.push((json!(s), json!(s)));
                pairs.push((json!(s), json!(format!("{s}a"))));
                pairs.push((json!(arr), json!(arr)));
                pairs.push((json!(arr), json!(flt)));
                pairs.push((json!(ob), json!(ob)));
                for i in 0..n {
                    let mut c: Vec<char> = s.chars().collect();
                    c[i] = 'b';
                    pairs.push((json!(s), json!(c.iter().collect::<String>())));
                    c.truncate(i + 1);
                    pairs.push((json!(s), json!(c.iter().collect::<String>())));
                    let mut a = arr.clone();
                    a[i] = json!("x");
                    pairs.push((json!(arr), json!(a)));
                    a.truncate(i);
                    pairs.push((json!(arr), json!(a)));
                    let mut o = ob.clone();
                    o[&format!("k{i}")] = json!(null);
                    pairs.push((json!(ob), json!(o)));
                    o.remove(&format!("k{i}"));
                    pairs.push((json!(ob), json!(o)));
                    o.insert(format!("l{i}"), json!(i));
                    pairs.push((json!(ob), json!(o)));
                }
                let docs: Vec<Value> = pairs
                    .iter()
                    .flat_map(|(a, b)| [json!([{"l": a, "r": b}]), json!([{"l": b, "r": a}])])
                    .collect();
                for op in OPS {
                    eval_all(cx, &format!("$[?@.l {op} @.r]"), docs.iter());
                }
            },
        ));
    }
    {
        let ns = crate::gen::powers(if thorough { 1 << 12 } else { 1 << 10 });
        ph.push(phase("powers of two", format!("strings, arrays and objects of sizes {ns:?}, equal or differing at the start, the end, or places in between"), ns.len(), move |u, cx| {
            let n = ns[u];
            let s: String = "aé€😀".chars().cycle().take(n).collect();
            let arr: Vec<Value> = (0..n).map(|i| json!(i)).collect();
            // (the model compares every member with every other)
            let ob: serde_json::Map<String, Value> = (0..n).map(|i| (format!("k{i}"), json!(i))).collect();
            let mut pairs = vec![(json!(s), json!(s)), (json!(s), json!(format!("{s}a"))), (json!(arr), json!(arr)), (json!(ob), json!(ob)), (json!(arr), json!(arr.iter().map(|v| json!(v.as_u64().unwrap() as f64)).collect::<Vec<_>>()))];
            for i in [0, 1, 127, 254, 255, 256, n / 2, n - 2, n - 1] {
                if i >= n {
                    continue;
                }
                let mut c: Vec<char> = s.chars().collect();
                c[i] = 'b';
                pairs.push((json!(s), json!(c.iter().collect::<String>())));
                c.truncate(i);
                pairs.push((json!(s), json!(c.iter().collect::<String>())));
                let mut a = arr.clone();
                a[i] = json!("x");
                pairs.push((json!(arr), json!(a)));
                a.truncate(i);
                pairs.push((json!(arr), json!(a)));
                let mut o = ob.clone();
                o[&format!("k{i}")] = json!(null);
                pairs.push((json!(ob), json!(o)));
                o.remove(&format!("k{i}"));
                pairs.push((json!(ob), json!(o)));
                o.insert(format!("l{i}"), json!(i));
                pairs.push((json!(ob), json!(o)));
            }
            let docs: Vec<Value> = pairs.iter().flat_map(|(a, b)| [json!([{"l": a, "r": b}]), json!([{"l": b, "r": a}])]).collect();
            for op in OPS {
                eval_all(cx, &format!("$[?@.l {op} @.r]"), docs.iter());
            }
        }));
    }
    ph
}
