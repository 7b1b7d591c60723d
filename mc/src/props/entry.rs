//! C22 entry points, C25 the integer type, C27 singular queries in every position.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{docs, kinds, nest, quote, syntax_strings, tuple, SYNTAX};
use crate::props::func::{calls_all, judge_calls};
use crate::props::grammar;
use serde::de::value::{BorrowedStrDeserializer, Error as ValueError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, JsonPathExt};
use serde_json_path_core::spec::integer::Integer;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::{Arc, LazyLock};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ---- C22 ----

#[derive(Deserialize)]
struct Holder {
    p: JsonPath,
}

#[derive(Deserialize)]
struct OptHolder {
    p: Option<JsonPath>,
}

static DOCS: LazyLock<Vec<Value>> = LazyLock::new(|| {
    vec![
        json!({"a": [1, {"a": 1, "b": 2}, [1, 2, 3]], "b": {"a": {"a": 1}, "b": [true, null]}, "1": "a", "$": 1, "true": true}),
        json!([{"a": 1, "b": "a"}, {"a": {"b": 1}}, [1, [2, "a"]], "a", null, true, 1, {"b": 1}]),
    ]
});

/// the JSON text of a string with every character escaped
fn escaped(s: &str) -> String {
    let mut t = String::from("\"");
    for u in s.encode_utf16() {
        t.push_str(&format!("\\u{u:04x}"));
    }
    t.push('"');
    t
}

/// all entry points on one string
pub fn judge_entry(q: &str, st: &mut Stats) -> Verdict {
    let first = JsonPath::parse(q);
    let err = first.as_ref().err().map(|e| e.to_string());
    st.states += q.len() as u64 + 1;
    let js = serde_json::to_string(q).unwrap();
    let esc = escaped(q);
    let mut all: Vec<(&str, Result<JsonPath, String>, bool)> = vec![
        ("FromStr", JsonPath::from_str(q).map_err(|e| e.to_string()), true),
        ("str::parse", q.parse::<JsonPath>().map_err(|e| e.to_string()), true),
        ("parse again", JsonPath::parse(q).map_err(|e| e.to_string()), true),
        ("from_value", serde_json::from_value(json!(q)).map_err(|e| e.to_string()), true),
        ("a borrowed value", JsonPath::deserialize(&json!(q)).map_err(|e| e.to_string()), true),
        ("a str deserializer", JsonPath::deserialize(StrDeserializer::<ValueError>::new(q)).map_err(|e| e.to_string()), true),
        ("a borrowed str deserializer", JsonPath::deserialize(BorrowedStrDeserializer::<ValueError>::new(q)).map_err(|e| e.to_string()), true),
        ("a string deserializer", JsonPath::deserialize(StringDeserializer::<ValueError>::new(q.to_string())).map_err(|e| e.to_string()), true),
        ("a cow deserializer", JsonPath::deserialize(IntoDeserializer::<ValueError>::into_deserializer(std::borrow::Cow::Borrowed(q))).map_err(|e| e.to_string()), true),
        // those that add where in the text the error was
        ("from_str", serde_json::from_str(&js).map_err(|e| e.to_string()), false),
        ("from_str with escapes", serde_json::from_str(&esc).map_err(|e| e.to_string()), false),
        ("from_slice", serde_json::from_slice(js.as_bytes()).map_err(|e| e.to_string()), false),
        ("from_reader", serde_json::from_reader(js.as_bytes()).map_err(|e| e.to_string()), false),
        ("a field", serde_json::from_str::<Holder>(&format!("{{\"p\":{js}}}")).map(|h| h.p).map_err(|e| e.to_string()), false),
        ("an optional field", serde_json::from_value::<OptHolder>(json!({"p": q})).map(|h| h.p.unwrap()).map_err(|e| e.to_string()), true),
        ("a list", serde_json::from_value::<Vec<JsonPath>>(json!([q])).map(|mut v| v.pop().unwrap()).map_err(|e| e.to_string()), true),
        ("a map", serde_json::from_value::<BTreeMap<String, JsonPath>>(json!({"k": q})).map(|mut v| v.remove("k").unwrap()).map_err(|e| e.to_string()), true),
        ("a box", serde_json::from_value::<Box<JsonPath>>(json!(q)).map(|b| *b).map_err(|e| e.to_string()), true),
    ];
    if let Ok(p) = &first {
        all.push(("clone", Ok(p.clone()), true));
    }
    st.traces += all.len() as u64;
    for (name, r, exact) in &all {
        st.transitions += 1;
        match (&first, r) {
            (Ok(p), Ok(o)) => {
                ensure!(p == o && o == p, "{name} of {q:?} gives another query than parse: {o} and {p}");
            }
            (Err(_), Err(e)) => {
                let e0 = err.as_ref().unwrap();
                let ok = if *exact { e == e0 } else { e.strip_prefix(e0.as_str()).is_some_and(|r| r.is_empty() || r.starts_with(" at line ")) };
                ensure!(ok, "{name} of {q:?} reports {e:?}, parse {e0:?}");
            }
            (Ok(_), Err(e)) => return Err(format!("{name} of {q:?} fails, parse succeeds: {e}")),
            (Err(e), Ok(_)) => return Err(format!("{name} of {q:?} succeeds, parse fails: {e}")),
        }
    }
    if let (Err(a), Err(b)) = (&first, JsonPath::from_str(q)) {
        ensure!(
            a.position() == b.position() && a.message() == b.message(),
            "parse and FromStr of {q:?} report {} {:?} and {} {:?}",
            a.position(),
            a.message(),
            b.position(),
            b.message()
        );
    }
    match &first {
        Ok(p) => {
            st.class("accepted");
            for d in DOCS.iter() {
                let want = p.query(d).all();
                let got = d.json_path(p).all();
                ensure!(
                    want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| std::ptr::eq(*a, *b)),
                    "json_path of {q:?} gives {} nodes, query {}",
                    got.len(),
                    want.len()
                );
                let loc: Vec<(String, *const Value)> = p.query_located(d).iter().map(|n| (n.location().to_string(), n.node() as *const Value)).collect();
                for (name, r, _) in &all {
                    let o = r.as_ref().unwrap();
                    let got = o.query(d).all();
                    ensure!(
                        want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| std::ptr::eq(*a, *b)),
                        "the query {name} makes of {q:?} selects other nodes than that of parse"
                    );
                    let l: Vec<(String, *const Value)> = o.query_located(d).iter().map(|n| (n.location().to_string(), n.node() as *const Value)).collect();
                    ensure!(l == loc, "the query {name} makes of {q:?} locates other nodes than that of parse");
                }
            }
        }
        Err(_) => st.class("rejected"),
    }
    Ok(())
}

fn entry(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("entry", q), &mut |st| judge_entry(q, st));
}

fn judge_not_string(v: &Value, st: &mut Stats) -> Verdict {
    st.traces += 5;
    st.states += 1;
    let t = v.to_string();
    ensure!(serde_json::from_value::<JsonPath>(v.clone()).is_err(), "a query is deserialized from the value {t}");
    ensure!(JsonPath::deserialize(v).is_err(), "a query is deserialized from the borrowed value {t}");
    ensure!(serde_json::from_str::<JsonPath>(&t).is_err(), "a query is deserialized from the text {t}");
    ensure!(serde_json::from_slice::<JsonPath>(t.as_bytes()).is_err(), "a query is deserialized from the bytes {t}");
    ensure!(serde_json::from_reader::<_, JsonPath>(t.as_bytes()).is_err(), "a query is deserialized from a reader of {t}");
    Ok(())
}

fn judge_default(d: &Value, st: &mut Stats) -> Verdict {
    st.traces += 1;
    st.states += 1;
    let p = JsonPath::default();
    let q = JsonPath::parse("$").map_err(|e| e.to_string())?;
    ensure!(p == q && p.to_string() == q.to_string(), "the default query is {p}");
    for p in [&p, &q] {
        let a = p.query(d).all();
        ensure!(a.len() == 1 && std::ptr::eq(a[0], d), "the default query selects {a:?} of {d}");
        let l = p.query_located(d);
        ensure!(l.len() == 1 && std::ptr::eq(l.first().unwrap().node(), d) && l.first().unwrap().location().is_empty(), "the default query locates {l:?}");
        let e = d.json_path(p).all();
        ensure!(e.len() == 1 && std::ptr::eq(e[0], d), "json_path of the default query selects {e:?}");
    }
    Ok(())
}

pub fn c22(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let base = Arc::new(grammar::base());
    {
        let base = base.clone();
        let chars: Vec<char> = if thorough { grammar::edit_chars(false) } else { "$@.[]*,:?!()&|=<>'\"\\-01ea_ \n\u{0}é😀".chars().collect() };
        ph.push(phase("queries and single edits", format!("{} queries x every deletion, insertion and replacement of one character out of {}, and every beginning and ending", base.len(), chars.len()), base.len(), move |u, cx| {
            let q: Vec<char> = base[u].chars().collect();
            let mut s = vec![base[u].clone()];
            for i in 0..=q.len() {
                s.push(q[..i].iter().collect());
                s.push(q[i..].iter().collect());
                for c in &chars {
                    s.push(q[..i].iter().chain([c]).chain(&q[i..]).collect());
                    if i < q.len() {
                        s.push(q[..i].iter().chain([c]).chain(&q[i + 1..]).collect());
                    }
                }
            }
            s.sort();
            s.dedup();
            for t in s {
                entry(cx, &t);
            }
        }));
    }
    {
        let k = if thorough { 4 } else { 3 };
        let n = grammar::TOKENS.len();
        ph.push(phase("token sequences", format!("all sequences of up to {k} of {n} tokens, alone and after $, $[, $[? and $[?@"), n, move |u, cx| {
            for l in 0..k {
                for i in 0..n.pow(l as u32) {
                    let t: String = std::iter::once(u).chain(tuple(i, l, n)).map(|i| grammar::TOKENS[i]).collect();
                    entry(cx, &t);
                    if l < k - 1 {
                        for (a, b) in [("$", ""), ("$[", "]"), ("$[?", "]"), ("$[?@", "]")] {
                            entry(cx, &format!("{a}{t}{b}"));
                        }
                    }
                }
            }
            entry(cx, "");
        }));
    }
    {
        let n = SYNTAX.len();
        let k = if thorough { 3 } else { 2 };
        ph.push(phase("strings like syntax", format!("all sequences of up to {k} of {n} pieces of syntax, as names and literals, with blanks around the query and escapes of JSON"), n, move |u, cx| {
            for s in syntax_strings(u, k) {
                entry(cx, &s);
                let (a, b) = (quote(&s, '\''), quote(&s, '"'));
                for q in [format!("$[{a}]"), format!("$[?@=={b}]"), format!("$[?@[{a}]<{b}]"), format!(" $[{a}]"), format!("$[{b}] "), format!("$['{s}']"), format!("$[\"{s}\"]")] {
                    entry(cx, &q);
                }
            }
        }));
    }
    {
        ph.push(phase("characters", "every Unicode scalar value alone, and in five places of a query", 0x110, move |u, cx| {
            for lo in 0..0x1000u32 {
                let cp = (u as u32) << 12 | lo;
                if !thorough && cp > 0x3000 && cp % 61 != 0 {
                    continue;
                }
                let Some(c) = char::from_u32(cp) else { continue };
                for q in [format!("{c}"), format!("$.{c}"), format!("$['{c}']"), format!("$[\"\\{c}\"]"), format!("$[?@.a=='{c}']"), format!("${c}.a")] {
                    entry(cx, &q);
                }
            }
        }));
    }
    {
        let vs = Arc::new(docs(if thorough { 5 } else { 4 }, &["$", "p"], &[json!(1), json!("$"), json!(null), json!(true)]));
        ph.push(phase("other than strings", format!("{} JSON values other than strings", vs.len()), 1, move |_, cx| {
            let more = [json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(false), json!(["$"]), json!({"$": "$"}), json!([[]]), json!({"JsonPath": "$"}), json!({"0": "$"})];
            for v in vs.iter().chain(&more) {
                if !v.is_string() {
                    cx.case(&|| Case::new("not a string", "").doc(v), &mut |st| judge_not_string(v, st));
                }
            }
            for d in vs.iter() {
                cx.case(&|| Case::new("default", "").doc(d), &mut |st| judge_default(d, st));
            }
        }));
    }
    {
        let segs = Arc::new(crate::props::nodes::segments());
        let mut ds = kinds();
        ds.extend(docs(if thorough { 5 } else { 4 }, &["a", "b"], &[json!(1), json!("a")]));
        let ds = Arc::new(ds);
        ph.push(phase("json_path", format!("no segment, and {} segments alone and in pairs, on {} documents", segs.len(), ds.len()), segs.len() + 1, move |u, cx| {
            for s in std::iter::once("").chain(segs.iter().map(|s| s.as_str())) {
                let first = segs.get(u).map_or("", |s| s);
                let q = format!("${first}{s}");
                if let Ok(p) = JsonPath::parse(&q) {
                    let ds: &[Value] = if s.is_empty() || first.is_empty() { &ds } else { &ds[ds.len() - 20..] };
                    for d in ds {
                        cx.case(&|| Case::new("ext", &q).doc(d), &mut |st| {
                            st.traces += 1;
                            st.states += 1;
                            let (a, b) = (d.json_path(&p).all(), p.query(d).all());
                            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| std::ptr::eq(*a, *b)), "json_path of {q:?} differs from query");
                            Ok(())
                        });
                    }
                }
            }
        }));
    }
    ph
}

// ---- C25 ----

const MAX: i128 = (1 << 53) - 1;

fn in_range(v: i128) -> bool {
    (-MAX..=MAX).contains(&v)
}

fn checked<T: std::fmt::Display, E>(what: &str, v: T, exact: Option<i128>, r: Result<Integer, E>) -> Verdict {
    match (exact, r) {
        (Some(e), Ok(i)) if in_range(e) && i.to_string() == e.to_string() && i == e as i64 => Ok(()),
        (e, Err(_)) if !e.is_some_and(in_range) => Ok(()),
        (_, r) => Err(format!("{what} of {v} gives {}", r.map_or("an error".to_string(), |i| i.to_string()))),
    }
}

/// conversions of one value, from every type that holds it, and of the integer to others
fn judge_integer(v: i128, st: &mut Stats) -> Verdict {
    st.states += 1;
    st.traces += 1;
    macro_rules! conv {
        ($($t:ty),*) => { $( if let Ok(x) = <$t>::try_from(v) { st.transitions += 1; checked(concat!("conversion from ", stringify!($t)), x, Some(v), Integer::try_from(x))?; } )* };
    }
    conv!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    macro_rules! from {
        ($($t:ty),*) => { $( if let Ok(x) = <$t>::try_from(v) { st.transitions += 1; let i: Integer = x.into(); ensure!(i == v as i64, "the {} {v} becomes {i}", stringify!($t)); } )* };
    }
    from!(i8, i16, i32, u8, u16, u32);
    checked("parsing", v, Some(v), v.to_string().parse::<Integer>())?;
    let Ok(i) = Integer::try_from(v) else { return Ok(()) };
    st.class("within range");
    ensure!(Integer::from_i64_unchecked(v as i64) == i, "from_i64_unchecked({v}) differs");
    ensure!(i.abs() == v.abs() as i64 && i.abs().to_string() == v.abs().to_string(), "abs of {v} is {}", i.abs());
    match usize::try_from(i) {
        Ok(u) => ensure!(v >= 0 && u as i128 == v, "{v} becomes the usize {u}"),
        Err(_) => ensure!(v < 0, "{v} does not become a usize"),
    }
    ensure!((i == Integer::ZERO) == (v == 0) && (i == Integer::default()) == (v == 0), "{v} compared with zero");
    ensure!(format!("{i}") == v.to_string(), "{v} displays as {i}");
    ensure!(i.clone() == i && i.to_string().parse::<Integer>().is_ok_and(|j| j == i), "{v} does not survive being displayed and parsed");
    Ok(())
}

fn judge_integers(a: i128, b: i128, st: &mut Stats) -> Verdict {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let (x, y) = (Integer::try_from(a).map_err(|e| e.to_string())?, Integer::try_from(b).map_err(|e| e.to_string())?);
    st.states += 1;
    st.traces += 1;
    for (name, got, want) in [("+", x.checked_add(y), a + b), ("-", x.checked_sub(y), a - b), ("*", x.checked_mul(y), a * b)] {
        st.transitions += 1;
        let ok = match got {
            Some(g) => in_range(want) && g == want as i64 && g.to_string() == want.to_string(),
            None => !in_range(want),
        };
        ensure!(ok, "{a} {name} {b} gives {got:?}");
        if got.is_none() {
            st.class("out of range");
        }
    }
    ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "{a} compared with {b} is {:?}", x.cmp(&y));
    ensure!((x == y) == (a == b) && (x < y) == (a < b) && (x >= y) == (a >= b), "{a} compared with {b}");
    let j = b as i64;
    ensure!((x == j) == (a == b) && x.partial_cmp(&j) == Some(a.cmp(&b)), "{a} compared with the i64 {b}");
    ensure!(x.max(y) == a.max(b) as i64 && x.min(y) == a.min(b) as i64, "max or min of {a} and {b}");
    let h = |i: Integer| {
        let mut h = DefaultHasher::new();
        i.hash(&mut h);
        h.finish()
    };
    ensure!(a != b || h(x) == h(y), "equal integers {a} have different hashes");
    Ok(())
}

/// what an integer's text means: an optional sign and ASCII digits
fn integer_text(s: &str) -> Option<i128> {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    // far out of range is out of range all the same
    let d = d.trim_start_matches('0');
    let m: i128 = if d.len() > 25 { i128::MAX / 2 } else { format!("0{d}").parse().unwrap() };
    Some(if s.starts_with('-') { -m } else { m })
}

fn judge_integer_text(s: &str, st: &mut Stats) -> Verdict {
    st.states += s.len() as u64 + 1;
    st.transitions += s.len() as u64;
    st.traces += 1;
    let want = integer_text(s);
    match (s.parse::<Integer>(), want) {
        (Ok(i), Some(w)) if in_range(w) && i == w as i64 => {
            st.class("a number in range");
            Ok(())
        }
        (Err(e), w) if !w.is_some_and(in_range) => {
            ensure!(!e.to_string().is_empty(), "the error for {s:?} has no message");
            st.class("no number in range");
            Ok(())
        }
        (r, _) => Err(format!("parsing {s:?} as an integer gives {r:?}")),
    }
}

fn lattice(thorough: bool) -> Vec<i128> {
    let mut v: Vec<i128> = (-40..=40).collect();
    let near = if thorough { 4 } else { 2 };
    let mut centers: Vec<i128> = (0..=126).map(|e| 1i128 << e).collect();
    centers.extend((1..=37).map(|e| 10i128.pow(e)));
    // factors whose product lies next to the bound, and square roots of it
    centers.extend([94906265, 94906266, 94906267, 6361 * 69431, 20394401, 6361, 69431, 20394401 * 6361, MAX / 3, MAX / 7, MAX / 10, MAX - 7, MAX / 2]);
    centers.extend([i8::MAX as i128, i16::MAX as i128, i32::MAX as i128, i64::MAX as i128, u8::MAX as i128, u16::MAX as i128, u32::MAX as i128, u64::MAX as i128, i128::MAX - 10]);
    for c in centers {
        for k in -near..=near {
            v.push(c + k);
            v.push(-c + k);
        }
    }
    v.push(i128::MIN);
    v.push(i128::MAX);
    v.sort();
    v.dedup();
    v
}

pub fn c25(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let l = Arc::new(lattice(thorough));
    {
        let l = l.clone();
        ph.push(phase("conversions", format!("every 16-bit value and {} values at powers of two and ten, type limits and the bounds, from every integer type; u128 up to its maximum", l.len()), 64, move |u, cx| {
            let one = |cx: &mut Ctx, v: i128| cx.case(&|| Case::new("integer", "").x(json!(v.to_string())), &mut |st| judge_integer(v, st));
            for v in (-70000i128..=70000).skip(u).step_by(64) {
                one(cx, v);
            }
            for v in l.iter().skip(u).step_by(64) {
                one(cx, *v);
            }
            if u == 0 {
                cx.case(&|| Case::new("integer", "").x(json!("u128")), &mut |st| judge_u128(st));
            }
        }));
    }
    {
        let r: i128 = if thorough { 1500 } else { 300 };
        ph.push(phase("small pairs", format!("all pairs of -{r}..={r}"), (2 * r + 1) as usize, move |u, cx| {
            let a = u as i128 - r;
            for b in -r..=r {
                cx.case(&|| Case::new("integers", "").x(json!([a.to_string(), b.to_string()])), &mut |st| judge_integers(a, b, st));
            }
        }));
    }
    {
        let v: Arc<Vec<i128>> = Arc::new(l.iter().copied().filter(|v| in_range(*v)).collect());
        ph.push(phase("boundary pairs", format!("all pairs of {} values within the range", v.len()), v.len(), move |u, cx| {
            let a = v[u];
            for &b in v.iter() {
                cx.case(&|| Case::new("integers", "").x(json!([a.to_string(), b.to_string()])), &mut |st| judge_integers(a, b, st));
            }
            {
                // the values at which the exact result passes the bounds
                for bound in [MAX, -MAX] {
                    for k in -1..=1 {
                        let mut cs = vec![bound - a + k, a - bound + k];
                        if a != 0 {
                            cs.push(bound / a + k);
                        }
                        for c in cs {
                            if in_range(c) {
                                cx.case(&|| Case::new("integers", "").x(json!([a.to_string(), c.to_string()])), &mut |st| judge_integers(a, c, st));
                            }
                        }
                    }
                }
            }
        }));
    }
    {
        let cs: Vec<char> = "-+0159 ._xe٣\u{0}".chars().collect();
        let n = cs.len();
        let k = if thorough { 6 } else { 5 };
        let l = l.clone();
        ph.push(phase("texts", format!("all strings of up to {k} of {n} characters; the decimal texts of {} values with prefixes and suffixes", l.len()), n, move |u, cx| {
            let one = |cx: &mut Ctx, s: &str| cx.case(&|| Case::new("integer text", s), &mut |st| judge_integer_text(s, st));
            for len in 0..k {
                for i in 0..n.pow(len as u32) {
                    let s: String = std::iter::once(u).chain(tuple(i, len, n)).map(|i| cs[i]).collect();
                    one(cx, &s);
                }
            }
            one(cx, "");
            for v in l.iter().skip(u).step_by(n) {
                for (a, b) in [("", ""), ("+", ""), ("-", ""), ("0", ""), ("000", ""), ("", "0"), (" ", ""), ("", " "), ("", ".0"), ("", "e0"), ("+0", ""), ("-0", ""), ("--", ""), ("0x", ""), ("", "_")] {
                    one(cx, &format!("{a}{v}{b}"));
                }
                one(cx, &format!("{}{v}", "0".repeat(60)));
            }
        }));
    }
    ph
}

fn judge_u128(st: &mut Stats) -> Verdict {
    for k in 0..128 {
        for d in 0..3u128 {
            let v = (1u128 << k).wrapping_sub(d);
            st.states += 1;
            checked("conversion from u128", v, i128::try_from(v).ok(), Integer::try_from(v))?;
        }
    }
    checked("conversion from u128", u128::MAX, None, Integer::try_from(u128::MAX))?;
    for v in [MAX + 1, -MAX - 1, i64::MAX as i128, i64::MIN as i128] {
        ensure!(std::panic::catch_unwind(|| Integer::from_i64_unchecked(v as i64)).is_err(), "from_i64_unchecked({v}) gives an integer out of range");
    }
    Ok(())
}

// ---- C27 ----

/// the forms in which a singular query may appear within a filter
const PLACES: &[&str] = &[
    "Q", "!Q", "Q==1", "1==Q", "Q!=1", "Q=='a'", "Q==null", "Q!=null", "Q==true", "Q==@.a", "@[0]==Q", "Q==Q", "Q<2", "Q<='a'", "2>Q", "x_v_v(Q)==1", "x_v_v(Q)==Q", "x_v_l(Q)", "x_n_n(Q)", "x_n_v(Q)==Q", "x_n_l(Q)", "x_l_l(Q)", "!x_l_l(Q)",
    "x_l_l(!Q)", "x_l_l(Q&&@)", "x_vv_l(Q,Q)", "x_vn_v(Q,Q)==Q", "length(Q)==1", "count(Q)==1", "count(Q)==0", "value(Q)==Q", "match(Q,'a')", "search('a',Q)", "x_v_v(value(Q))==Q", "Q&&Q", "(Q)||Q==1", "@[?Q]", "$[?Q]", "Q!=x__v()",
];

pub fn c27(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let segs: Vec<&'static str> = vec![".a", "['a']", "[\"b\"]", "[0]", "[1]", "[-1]", "[-2]", "[2]", "['']"];
    let n = segs.len();
    // known findings make ordered comparisons of Boolean values, arrays and objects deviate; they
    // belong to C04 and are avoided here
    let places: Vec<&str> = PLACES.to_vec();
    let ds: Arc<Vec<Value>> = Arc::new({
        let mut d: Vec<Value> = docs(if thorough { 5 } else { 4 }, &["a", "b"], &[json!(1), json!("a")]);
        d.extend([
            json!([[1, 2], [2, 1], [[1], ["a"]], ["a"], [], "a", null, {"a": [1, 2], "b": {"a": 1}}, {"a": {"a": [1]}, "": 1}]),
            json!({"a": [[1, [1, 2]], {"a": 1}], "b": {"a": {"b": ["a", 1]}}, "": [[], [[]], [null], [false], [true]]}),
            json!([null, [null], {"a": null}, [false], {"a": false}, {"a": []}, [[]], {"b": ""}]),
        ]);
        d
    });
    let k = if thorough { 4 } else { 3 };
    {
        let (segs, places, ds) = (segs.clone(), places.clone(), ds.clone());
        ph.push(phase(
            "every position",
            format!("singular queries of up to {k} of {n} segments, relative and absolute, in {} positions, on {} documents", places.len(), ds.len()),
            places.len() * n,
            move |u, cx| {
                let (p, first) = (places[u % places.len()], segs[u / places.len()]);
                let mut qs = vec![first.to_string()];
                for l in 1..k {
                    for i in 0..n.pow(l as u32) {
                        qs.push(format!("{first}{}", tuple(i, l, n).iter().map(|&i| segs[i]).collect::<String>()));
                    }
                }
                if u < places.len() {
                    qs.push(String::new());
                }
                for s in &qs {
                    let few = s.matches(['[', '.']).count() > 2;
                    for root in ["@", "$"] {
                        let q = format!("$[?{}]", p.replace('Q', &format!("{root}{s}")));
                        let ds: &[Value] = if few { &ds[ds.len() - if thorough { 40 } else { 3 }..] } else { &ds };
                        calls_all(cx, &q, ds);
                    }
                }
            },
        ));
    }
    {
        // the same on its own: the reference for what the positions give
        let segs = segs.clone();
        let ds = ds.clone();
        ph.push(phase("stand-alone", format!("the same queries on their own, of up to {k} segments"), n, move |u, cx| {
            for l in 0..k {
                for i in 0..n.pow(l as u32) {
                    let t: String = tuple(i, l, n).iter().map(|&i| segs[i]).collect();
                    calls_all(cx, &format!("${}{t}", segs[u]), ds.iter());
                }
            }
        }));
    }
    {
        // indices at and beyond both ends of arrays, in both roles
        let max = if thorough { 24 } else { 12 };
        ph.push(phase("indices", format!("every index -{0}..={0} and the extremes, in arrays of 0..={max} elements", max + 2), max + 1, move |len, cx| {
            let arr: Vec<Value> = (0..len).map(|i| json!(i)).collect();
            let d = json!([arr, {"a": arr}, len]);
            let m = max as i64 + 2;
            for i in (-m..=m).chain([9007199254740991, -9007199254740991, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32)]) {
                for q in [
                    format!("$[?@[{i}]==0]"), format!("$[?@[{i}]=={}]", len as i64 - 1), format!("$[?@[{i}]]"), format!("$[?@.a[{i}]==0]"), format!("$[?$[0][{i}]==$[1].a[{i}]]"), format!("$[?x_v_v(@[{i}])==0]"),
                    format!("$[?x_n_l(@[{i}])]"), format!("$[?x_l_l(@[{i}])]"), format!("$[?count(@[{i}])==1]"), format!("$[?value(@.a[{i}])==1]"), format!("$[0][{i}]"), format!("$[1].a[{i}]"), format!("$[?{len}!=@[{i}]]"),
                ] {
                    calls_all(cx, &q, [&d]);
                }
            }
        }));
    }
    {
        // names of every kind, in both notations and both quotes
        let cs = crate::props::select::odd_chars();
        let nc = cs.len();
        ph.push(phase("names", format!("{nc} characters in names, in every notation and several positions"), nc, move |u, cx| {
            let c = cs[u];
            for name in [c.to_string(), format!("a{c}"), format!("{c}{c}")] {
                let d = json!([{name.clone(): 1}, {"a": {name.clone(): {name.clone(): 1}}}, {"x": 1, "": 1}, {name.to_uppercase(): 1}]);
                let mut forms = vec![format!("[{}]", crate::gen::quote(&name, '\'')), format!("[{}]", crate::gen::quote(&name, '"'))];
                let f = name.chars().next().unwrap();
                if (f.is_ascii_alphabetic() || f == '_' || f as u32 >= 0x80) && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c as u32 >= 0x80) {
                    forms.push(format!(".{name}"));
                }
                for s in forms {
                    for q in [
                        format!("$[?@{s}==1]"), format!("$[?1==@{s}]"), format!("$[?@{s}]"), format!("$[?@.a{s}{s}==1]"), format!("$[?$[1].a{s}{s}==@{s}]"), format!("$[?x_v_v(@{s})==1]"), format!("$[?x_n_l(@.a{s})]"), format!("$[?!x_l_l(@{s})]"),
                        format!("$[0]{s}"),
                    ] {
                        calls_all(cx, &q, [&d]);
                    }
                }
            }
        }));
    }
    {
        let max = if thorough { 400 } else { 100 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 10)).collect();
        ph.push(phase("depth", format!("singular queries of 0..={max} segments, and of about powers of two up to 2^10, on chains about as deep"), ns.len(), move |u, cx| {
            let n = ns[u];
            for (seg, obj) in [("[0]", false), (".a", true), ("['a']", true)] {
                for extra in [0usize, 1] {
                    let d = nest(n + extra, &|_| obj.then(|| "a".to_string()), json!(1));
                    let d = json!([d]);
                    let s = seg.repeat(n);
                    for q in [format!("$[?@{s}==1]"), format!("$[?@{s}]"), format!("$[?x_v_v($[0]{s})==1]"), format!("$[?count(@{s})==1]"), format!("$[0]{s}")] {
                        calls_all(cx, &q, [&d]);
                    }
                }
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    let big = |v: &Value| v.as_str().unwrap().parse::<i128>().unwrap();
    match c.kind.as_str() {
        "entry" => judge_entry(&c.q, st),
        "not a string" => judge_not_string(&c.doc, st),
        "default" => judge_default(&c.doc, st),
        "integer" if c.x == json!("u128") => judge_u128(st),
        "integer" => judge_integer(big(&c.x), st),
        "integers" => judge_integers(big(&c.x[0]), big(&c.x[1]), st),
        "integer text" => judge_integer_text(&c.q, st),
        _ => judge_calls(c, st),
    }
}
