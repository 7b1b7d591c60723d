//! C01 child segments, C02 index and slice arithmetic, C03 descendant segments.

use crate::engine::{phase, Phase};
use crate::gen::{docs, kinds, nest, quote, tuple};
use crate::judge::eval_all;
use serde_json::{json, Map, Value};
use std::sync::Arc;

/// single selectors, as text inside brackets
fn selectors() -> Vec<String> {
    ["'a'", "\"b\"", "'c'", "''", "0", "1", "-1", "2", "-2", "*"].iter().map(|s| s.to_string()).collect()
}

/// segments with up to `k` selectors, in bracket and in dot notation
fn segments(sels: &[String], k: usize) -> Vec<String> {
    let mut out = vec![".a".to_string(), ".b".into(), ".*".into(), ".c".into()];
    for n in 1..=k {
        for i in 0..sels.len().pow(n as u32) {
            let t: Vec<&str> = tuple(i, n, sels.len()).iter().map(|&i| sels[i].as_str()).collect();
            out.push(format!("[{}]", t.join(",")));
        }
    }
    out
}

/// odd characters for member names
pub fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u32..0x180).filter_map(char::from_u32).collect();
    for c in [
        0x300, 0x301, 0x3b1, 0x5d0, 0x7ff, 0x800, 0x1e9e, 0x200b, 0x200d, 0x2028, 0x2029, 0x3000, 0xd7ff,
        0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1f1e6, 0x10ffff,
    ] {
        v.push(char::from_u32(c).unwrap());
    }
    v
}

fn obj<'a>(it: impl IntoIterator<Item = (&'a str, Value)>) -> Value {
    Value::Object(it.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Map<_, _>>())
}

pub fn c01(thorough: bool) -> Vec<Phase> {
    let d = Arc::new(docs(if thorough { 6 } else { 5 }, &["a", "b"], &[json!(1), json!("a")]));
    let small = Arc::new(docs(4, &["a", "b", ""], &[json!(1), json!(null)]));
    let sels = selectors();
    let one = Arc::new(segments(&sels, if thorough { 3 } else { 2 }));
    let single = Arc::new(segments(&sels, 1));
    let pairs = Arc::new(segments(&sels, 2));
    let mut ph = vec![];
    {
        let (one, d, small) = (one.clone(), d.clone(), small.clone());
        ph.push(phase(
            "one segment",
            format!("{} segments of up to {} selectors x {} documents", one.len(), if thorough { 3 } else { 2 }, d.len() + small.len()),
            one.len(),
            move |u, cx| eval_all(cx, &format!("${}", one[u]), d.iter().chain(small.iter())),
        ));
    }
    {
        let (single, pairs, d) = (single.clone(), pairs.clone(), d.clone());
        let n = single.len();
        ph.push(phase(
            "two segments",
            format!("{}^2 + 2 x {} x {} segment pairs x {} documents", n, n, pairs.len(), d.len()),
            n * (n + 2 * (pairs.len() - n)),
            move |u, cx| {
                let (i, j) = (u % n, u / n);
                let m = pairs.len() - n;
                let q = if j < n {
                    format!("${}{}", single[i], single[j])
                } else if j < n + m {
                    format!("${}{}", single[i], pairs[j])
                } else {
                    format!("${}{}", pairs[j - m], single[i])
                };
                let step = if j < n || thorough { 1 } else { 7 };
                // the mixed pairs see every seventh document in the quick tier
                eval_all(cx, &q, d.iter().skip(if step > 1 { u % step } else { 0 }).step_by(step));
            },
        ));
    }
    {
        let (single, d) = (single.clone(), if thorough { d.clone() } else { Arc::new(docs(5, &["a", "b"], &[json!(1)])) });
        let n = single.len();
        ph.push(phase(
            "three segments",
            format!("{}^3 segment triples x {} documents", n, d.len()),
            n * n * n,
            move |u, cx| {
                let t = tuple(u, 3, n);
                let q = format!("${}{}{}", single[t[0]], single[t[1]], single[t[2]]);
                eval_all(cx, &q, d.iter());
            },
        ));
    }
    {
        // member names, one odd character each
        let chars = if thorough {
            (0..=0x10ffffu32).filter_map(char::from_u32).collect::<Vec<_>>()
        } else {
            let mut v = odd_chars();
            v.extend((0x180..0x110000u32).step_by(0x101).filter_map(char::from_u32));
            v
        };
        let chunk = 64;
        let n = chars.len().div_ceil(chunk);
        ph.push(phase(
            "member names",
            format!("{} characters, alone and within a name, with near misses, quoted both ways and as shorthand", chars.len()),
            n,
            move |u, cx| {
                for &c in chars[u * chunk..].iter().take(chunk) {
                    for (k, misses) in [
                        (c.to_string(), vec![format!("{c}{c}"), String::new(), format!("{c}\u{301}")]),
                        (format!("a{c}b"), vec![format!("a{c}"), format!("{c}b"), "ab".into(), format!("A{c}b")]),
                    ] {
                        let mut m = Map::new();
                        for (i, x) in misses.iter().enumerate() {
                            m.insert(x.clone(), json!(i));
                        }
                        for x in [k.to_lowercase(), k.to_uppercase()] {
                            m.entry(x).or_insert(json!("case"));
                        }
                        let without = Value::Object({
                            let mut m = m.clone();
                            m.remove(&k);
                            m
                        });
                        m.insert(k.clone(), json!("hit"));
                        let with = Value::Object(m);
                        let mut qs = vec![format!("$[{}]", quote(&k, '\'')), format!("$[{}]", quote(&k, '"'))];
                        let shorthand = k.chars().enumerate().all(|(i, c)| {
                            c == '_' || c.is_ascii_alphabetic() || !c.is_ascii() || (i > 0 && c.is_ascii_digit())
                        });
                        if shorthand {
                            qs.push(format!("$.{k}"));
                        }
                        for q in qs {
                            eval_all(cx, &q, [&with, &without]);
                        }
                    }
                }
            },
        ));
    }
    {
        // sizes: arrays, objects, selector lists, chains of segments, long names
        let max = if thorough { 1100 } else { 300 };
        ph.push(phase(
            "sizes",
            format!("array and object sizes, numbers of selectors and of segments, lengths of names: every value in 0..={max}"),
            max + 1,
            move |n, cx| {
                let arr = Value::Array((0..n).map(|i| json!(i)).collect());
                let keys: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
                let ob = Value::Object(keys.iter().map(|k| (k.clone(), json!(k))).collect());
                let both = [&arr, &ob];
                let ni = n as i64;
                let mut idx: Vec<i64> = if n <= 40 { (-ni - 2..=ni + 2).collect() } else { vec![] };
                for b in [0, 1, 2, ni - 2, ni - 1, ni, ni + 1, ni / 2, 255, 256, 15, 16, 17, 127, 128] {
                    idx.extend([b, -b]);
                }
                idx.sort();
                idx.dedup();
                for i in idx {
                    eval_all(cx, &format!("$[{i}]"), both);
                    if n > 0 {
                        eval_all(cx, &format!("$[{i},-1,{i},0]"), both);
                    }
                }
                eval_all(cx, "$[*]", both);
                eval_all(cx, "$.*", both);
                eval_all(cx, "$[*,*]", both);
                for k in [0, n / 2, n.saturating_sub(1), n] {
                    eval_all(cx, &format!("$.k{k}"), both);
                    eval_all(cx, &format!("$['k{k}','k0','k{k}']"), both);
                }
                if n > 0 {
                    // a list of n selectors: ascending, descending, and repeated ones
                    let asc: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                    let desc: Vec<String> = (1..=n).map(|i| format!("-{i}")).collect();
                    let names: Vec<String> = (0..n).rev().map(|i| format!("'k{i}'")).collect();
                    let rep: Vec<String> = (0..n).map(|i| ["0", "*", "'k1'", "-1"][i % 4].into()).collect();
                    for l in [asc, desc, names] {
                        eval_all(cx, &format!("$[{}]", l.join(",")), both);
                    }
                    let few = [json!([1, 2]), json!({"k1": 1, "k2": 2})];
                    eval_all(cx, &format!("$[{}]", rep.join(",")), few.iter());
                    // n segments down a nest of depth n (and one too many)
                    let objs = nest(n, &|_| Some("a".into()), json!(1));
                    let arrs = nest(n, &|_| None, json!(1));
                    let mixed = nest(n, &|d| (d % 2 == 0).then(|| "a".into()), json!(1));
                    let all = [&objs, &arrs, &mixed];
                    eval_all(cx, &format!("${}", ".a".repeat(n)), all);
                    eval_all(cx, &format!("${}", "[0]".repeat(n)), all);
                    eval_all(cx, &format!("${}", "[-1]".repeat(n)), all);
                    eval_all(cx, &format!("${}", ".*".repeat(n)), all);
                    eval_all(cx, &format!("${}", "['a',0]".repeat(n)), all);
                    eval_all(cx, &format!("${}", ".a".repeat(n + 1)), all);
                    let alt: String = (0..n).map(|i| if i % 2 == 0 { ".a" } else { "[0]" }).collect();
                    eval_all(cx, &format!("${alt}"), all);
                    if n <= 9 {
                        // every list of selectors that selects several per level: 2^n nodes
                        let bush = (0..n).fold(json!(0), |v, i| json!([v, {"a": v, "i": i}]));
                        eval_all(cx, &format!("${}", "[*]".repeat(n)), [&bush]);
                        eval_all(cx, &format!("${}", "[1,0,'i','a']".repeat(n)), [&bush]);
                    }
                }
                // names of length n, with a name that differs only in the last or first character
                let k = "x".repeat(n);
                let near = obj([
                    (k.as_str(), json!("hit")),
                    (format!("{k}x").as_str(), json!(1)),
                    (format!("{k}y").as_str(), json!(2)),
                    (format!("y{k}").as_str(), json!(3)),
                    (k.get(1..).map_or("z".into(), |s| format!("{s}y")).as_str(), json!(4)),
                ]);
                let mut without = near.clone();
                without.as_object_mut().unwrap().remove(&k);
                eval_all(cx, &format!("$['{k}']"), [&near, &without]);
                eval_all(cx, &format!("$[\"{k}\"]"), [&near, &without]);
                if n > 0 {
                    eval_all(cx, &format!("$.{k}"), [&near, &without]);
                    let k2: String = "é€😀a".chars().cycle().take(n).collect();
                    let near = obj([(k2.as_str(), json!("hit")), (format!("{k2}a").as_str(), json!(1))]);
                    eval_all(cx, &format!("$.{k2}"), [&near]);
                    eval_all(cx, &format!("$['{k2}']"), [&near]);
                }
            },
        ));
    }
    {
        // every selector on every kind of value, alone and inside containers; keys like numbers
        let mut ks = kinds();
        ks.extend([
            json!({"0": "zero", "1": "one", "-1": "minus", "*": "star", "a": {"0": 1}}),
            json!({"$": 1, "@": 2, ".": 3, "..": 4, "[0]": 5, "'a'": 6, "": 7, " ": 8}),
            json!(["0", "a", ["a"], {"a": "a"}]),
            json!({"b": 1, "a": 2, "B": 3, "A": 4, "aa": 5, "0": 6}),
        ]);
        let mut all = ks.clone();
        for k in &ks {
            all.push(json!([k, k]));
            all.push(json!({"a": k, "b": [k]}));
        }
        let mut qs: Vec<String> = vec!["$".into()];
        let s = [
            "'0'", "0", "'1'", "1", "'-1'", "-1", "'*'", "*", "'$'", "'@'", "'.'", "'..'", "'[0]'", "'\\'a\\''",
            "''", "' '", "'a'", "'A'", "'b'", "'B'", "'aa'",
        ];
        for a in s {
            qs.push(format!("$[{a}]"));
            qs.push(format!("$[ {a} ]"));
            qs.push(format!("$[*][{a}]"));
            qs.push(format!("$.a[{a}]"));
            qs.push(format!("$ .a [ {a} ]"));
            for b in s {
                qs.push(format!("$[{a},{b}]"));
                qs.push(format!("$[{a} , {b}, {a}]"));
                qs.push(format!("$.*[{a}, {b}]"));
            }
        }
        ph.push(phase(
            "kinds",
            format!("{} queries x {} documents with every kind of value and confusable names", qs.len(), all.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], all.iter()),
        ));
    }
    {
        let ns = crate::gen::powers(1 << 16);
        ph.push(phase("powers of two", format!("sizes {ns:?} of arrays, objects, selector lists, segment lists and names"), ns.len(), move |u, cx| {
            let n = ns[u];
            let ni = n as i64;
            let arr = Value::Array((0..n).map(|i| json!(i)).collect());
            let ob = Value::Object((0..n).map(|i| (format!("k{i}"), json!(i))).collect());
            let both = [&arr, &ob];
            for i in [0, 1, ni - 2, ni - 1, ni, ni + 1, ni - 256, ni - 65536] {
                for i in [i, -i] {
                    eval_all(cx, &format!("$[{i}]"), both);
                    eval_all(cx, &format!("$['k{i}',{i},'k0',-1]"), both);
                }
            }
            for q in ["$[*]", "$.*", "$[-1,*]", "$['k0',*,0]", "$[*][0]"] {
                eval_all(cx, q, both);
            }
            let asc: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let desc: Vec<String> = (1..=n).map(|i| format!("-{i}")).collect();
            // (the model looks a name up by comparing it to every member)
            let names: Vec<String> = (0..n).rev().step_by(n / 4096 + 1).map(|i| format!("'k{i}'")).collect();
            for l in [asc, desc, names] {
                eval_all(cx, &format!("$[{}]", l.join(",")), both);
            }
            // one more member than the same object without its last, and the other way round
            let few = [json!([1, 2]), json!({"a": {"a": 1}, "b": 2}), json!({"b": 1})];
            eval_all(cx, &format!("$[{}1]", "0,".repeat(n)), few.iter());
            eval_all(cx, &format!("$[{}'b']", "'a',".repeat(n)), few.iter());
            eval_all(cx, &format!("${}", ".a".repeat(n)), few.iter());
            eval_all(cx, &format!("${}", "[0]".repeat(n)), few.iter());
            for c in ["x", "é", "😀"] {
                let k = c.repeat(n);
                let near = obj([(k.as_str(), json!("hit")), (&k[c.len()..], json!(1)), (format!("{k}{c}").as_str(), json!(2)), (format!("y{}", &k[c.len()..]).as_str(), json!(3)), (format!("{}y", &k[c.len()..]).as_str(), json!(4))]);
                let mut without = near.clone();
                without.as_object_mut().unwrap().remove(&k);
                for q in [format!("$['{k}']"), format!("$[\"{k}\"]"), format!("$.{k}")] {
                    eval_all(cx, &q, [&near, &without]);
                }
            }
            if n <= 1025 {
                let objs = nest(n, &|_| Some("a".into()), json!(1));
                let arrs = nest(n, &|_| None, json!(1));
                for m in [n - 1, n, n + 1] {
                    for s in [".a", "[0]", "[-1]", ".*", "[*,'b']"] {
                        eval_all(cx, &format!("${}", s.repeat(m)), [&objs, &arrs]);
                    }
                }
            }
        }));
    }
    ph
}

const MAX: i64 = (1 << 53) - 1;

fn opt(v: Option<i64>) -> String {
    v.map_or(String::new(), |v| v.to_string())
}

fn slice_text(a: Option<i64>, b: Option<i64>, c: Option<i64>, second_colon: bool) -> String {
    let mut s = format!("{}:{}", opt(a), opt(b));
    if second_colon || c.is_some() {
        s += &format!(":{}", opt(c));
    }
    s
}

pub fn c02(thorough: bool) -> Vec<Phase> {
    let array = |n: usize| Value::Array((0..n).map(|i| json!(i)).collect());
    let mut ph = vec![];
    {
        let max = if thorough { 11 } else { 7 };
        let arrays: Arc<Vec<Value>> = Arc::new((0..=max as usize).map(array).collect());
        let mut vals: Vec<Option<i64>> = vec![None];
        vals.extend((-max - 2..=max + 2).map(Some));
        let n = vals.len();
        ph.push(phase(
            "all small slices",
            format!("start, end and step each omitted or in {}..={} x array lengths 0..={max}", -max - 2, max + 2),
            n * n,
            move |u, cx| {
                let (a, b) = (vals[u % n], vals[u / n]);
                for &c in &vals {
                    eval_all(cx, &format!("$[{}]", slice_text(a, b, c, false)), arrays.iter());
                }
                eval_all(cx, &format!("$[{}]", slice_text(a, b, None, true)), arrays.iter());
            },
        ));
    }
    {
        let mut b: Vec<Option<i64>> = vec![None];
        let mut edges = vec![MAX, MAX - 1, MAX - 2, 1 << 52, (1 << 52) + 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 16) + 1, 1000, 3, 2, 1];
        if thorough {
            edges.extend([(1 << 52) - 1, (1 << 31) + 1, (1 << 32) - 1, 1 << 16, 1 << 15, (1 << 16) - 1, 256, 255, 128, 127, 65, 64, 5, 4, 6]);
        }
        for e in edges {
            b.extend([Some(e), Some(-e)]);
        }
        b.push(Some(0));
        let arrays: Arc<Vec<Value>> = Arc::new([0, 1, 2, 3, 5].into_iter().map(array).collect());
        let n = b.len();
        ph.push(phase(
            "slices at the ends of the integer range",
            format!("start, end and step each from {} values up to +-(2^53-1) x 5 array lengths", n),
            n * n,
            move |u, cx| {
                for &c in &b {
                    eval_all(cx, &format!("$[{}]", slice_text(b[u % n], b[u / n], c, false)), arrays.iter());
                }
            },
        ));
    }
    {
        let max = if thorough { 520 } else { 300 };
        ph.push(phase(
            "array lengths",
            format!("array lengths 0..={max}: starts, ends and steps around the length and its fractions"),
            max + 1,
            move |n, cx| {
                let a = array(n);
                let l = n as i64;
                let mut v: Vec<Option<i64>> = vec![None];
                let mut pts = vec![0, 1, l / 2, l - 1, l, l + 1];
                if thorough {
                    pts.extend([2, l / 3, l - 2, 2 * l]);
                }
                pts.sort();
                pts.dedup();
                for p in pts {
                    v.push(Some(p));
                    if p != 0 {
                        v.push(Some(-p));
                    }
                }
                let mut steps = vec![None, Some(0)];
                for s in [1, 2, 3, 7, l - 1, l, l + 1] {
                    if s != 0 {
                        steps.extend([Some(s), Some(-s)]);
                    }
                }
                steps.sort();
                steps.dedup();
                for &s in &v {
                    for &e in &v {
                        for &t in &steps {
                            eval_all(cx, &format!("$[{}]", slice_text(s, e, t, false)), [&a]);
                        }
                    }
                }
                for i in -l - 2..=l + 2 {
                    eval_all(cx, &format!("$[{i}]"), [&a]);
                }
            },
        ));
    }
    {
        let mut ints: Vec<i64> = (-12..=12).collect();
        for e in [16, 31, 32, 33, 52, 53] {
            for k in [-2i64, -1, 0, 1, 2] {
                let v = (1i64 << e) + k;
                ints.extend([v, -v]);
            }
        }
        ints.extend([i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, 1 << 62, -(1 << 62)]);
        ints.sort();
        ints.dedup();
        let arrays: Arc<Vec<Value>> = Arc::new((0..=12).map(array).collect());
        let others = kinds();
        ph.push(phase(
            "indices",
            format!("{} index values x array lengths 0..=12 and every other kind of value, alone, in lists, in filters and after descendants", ints.len()),
            ints.len(),
            move |u, cx| {
                let i = ints[u];
                let nested = json!([[0, 1, 2], [], {"a": [3, 4]}, "abc", [[5]]]);
                for q in [
                    format!("$[{i}]"),
                    format!("$[{i},{i}]"),
                    format!("$[{i}:]"),
                    format!("$[:{i}]"),
                    format!("$[::{i}]"),
                    format!("$[{i}::-1]"),
                    format!("$[:{i}:-1]"),
                    format!("$[0,{i}:,{i}]"),
                ] {
                    eval_all(cx, &q, arrays.iter().chain(others.iter()));
                }
                for q in [
                    format!("$..[{i}]"),
                    format!("$[*][{i}]"),
                    format!("$[?@[{i}]]"),
                    format!("$[?@[{}] == 1]", i.to_string().trim_start_matches('-')),
                    format!("$[?@[{i}:]]"),
                    format!("$..[{i}:]"),
                    format!("$..[:{i}:-1]"),
                    // (negative indices of singular queries belong to C27)
                    format!("$[?$[{}] == @]", i.to_string().trim_start_matches('-')),
                    format!("$[?count(@[{i}:]) == 2]"),
                    format!("$[?count(@[:{i}:-1]) == 1]"),
                ] {
                    eval_all(cx, &q, [&nested]);
                }
                // out of the range of any machine type, or with odd spelling: must be refused
                for q in [format!("$[{i}0000000000000000000]"), format!("$[0:{i}00000000000000000000]"), format!("$[::{i}9999999999999999]")] {
                    eval_all(cx, &q, [&nested]);
                }
            },
        ));
    }
    {
        let ns = crate::gen::powers(if thorough { 1 << 17 } else { 1 << 14 });
        ph.push(phase("powers of two", format!("array lengths {ns:?}: starts, ends and steps around the length, its half and powers of two"), ns.len(), move |u, cx| {
            let n = ns[u];
            let a = array(n);
            let l = n as i64;
            let pts: Vec<i64> = vec![0, 1, l / 2, l - 256, l - 2, l - 1, l, l + 1, 2 * l];
            let mut v: Vec<Option<i64>> = vec![None];
            for p in pts {
                v.extend([Some(p), Some(-p)]);
            }
            v.dedup();
            for &s in &v {
                for &e in &v {
                    for t in [None, Some(0), Some(1), Some(-1), Some(l / 3), Some(-l / 3), Some(255), Some(256), Some(-257), Some(l - 1), Some(1 - l), Some(l), Some(-l), Some(l + 1), Some(-l - 1)] {
                        eval_all(cx, &format!("$[{}]", slice_text(s, e, t, false)), [&a]);
                    }
                }
            }
        }));
    }
    {
        // several selectors in one segment: every list, so that none may be joined or reordered
        let arrays: Arc<Vec<Value>> = Arc::new((0..=if thorough { 8 } else { 6 }).map(array).collect());
        let m: i64 = if thorough { 7 } else { 5 };
        let ints: Vec<String> = (-m..=m).map(|i| i.to_string()).collect();
        let small: Vec<String> = (-3..=3).map(|i| i.to_string()).collect();
        let slices: Vec<String> = [0, 1, 2, 3, 4, -1, -2, -3]
            .map(|i| i.to_string())
            .into_iter()
            .chain([":", "1:", ":2", "0:1", "1:3", "2:4", "3:1", "-2:", ":-1", "-3:-1", "::2", "1::2", "::-1", "2::-1", ":0:-1", "0:2:0", "5:", "-9:"].map(String::from))
            .collect();
        let far: Vec<String> = [0, 1, 2, 1 << 31, (1 << 31) + 1, (1 << 31) + 2, 1 << 32, (1 << 32) + 1, MAX - 2, MAX - 1, MAX, -MAX, -MAX + 1, -MAX + 2, -1, -2].map(|i: i64| i.to_string()).to_vec();
        for (name, items, k) in [("lists of three indices", ints, 3), ("lists of four indices", small.clone(), 4), ("lists of indices and slices", slices, 3), ("lists of indices at the ends of the range", far, 3)].into_iter().chain(thorough.then(|| ("lists of five indices", small, 5))) {
            let n = items.len();
            let units = n.pow(k - 1);
            let arrays = arrays.clone();
            ph.push(phase(
                name,
                format!("all lists of {k} of {n} selectors ({} .. {}) x array lengths 0..={}", items[0], items[n - 1], arrays.len() - 1),
                units,
                move |u, cx| {
                    let t = crate::gen::tuple(u, k as usize - 1, n);
                    for last in &items {
                        let list: Vec<&str> = t.iter().map(|&i| &items[i][..]).chain([&last[..]]).collect();
                        eval_all(cx, &format!("$[{}]", list.join(",")), arrays.iter());
                    }
                },
            ));
        }
    }
    ph
}

pub fn c03(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let sels = ["'a'", "'b'", "0", "-1", "*", "?@.a", "1:", "::-1", "?@==1"];
    let mut desc: Vec<String> = vec!["..a".into(), "..*".into(), "..b".into()];
    desc.extend(sels.iter().map(|s| format!("..[{s}]")));
    for a in sels {
        for b in sels {
            desc.push(format!("..[{a},{b}]"));
        }
    }
    let single: Vec<String> = desc[..12].to_vec();
    let child: Vec<String> = ["", ".a", "[0]", ".*", "['a',0]", "[-1]", "[?@.a]", "[0:2]"].iter().map(|s| s.to_string()).collect();
    let d = Arc::new(docs(if thorough { 6 } else { 5 }, &["a", "b"], &[json!(1), json!("a")]));
    let big = Arc::new(docs(if thorough { 7 } else { 6 }, &["a", "b"], &[json!(1)]));
    {
        let mut qs = vec![];
        for s in &desc {
            for c in &child {
                qs.push(format!("${c}{s}"));
                if !c.is_empty() {
                    qs.push(format!("${s}{c}"));
                }
            }
        }
        let d = d.clone();
        ph.push(phase(
            "one descendant segment",
            format!("{} queries, alone, before and after child segments x {} documents", qs.len(), d.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], d.iter()),
        ));
    }
    {
        let single = single.clone();
        let n = single.len();
        ph.push(phase(
            "two descendant segments",
            format!("{n}^2 queries, and with a child segment between x {} documents", d.len()),
            n * n,
            move |u, cx| {
                for mid in ["", ".a", "[0]"] {
                    eval_all(cx, &format!("${}{mid}{}", single[u % n], single[u / n]), d.iter());
                }
            },
        ));
    }
    {
        let mut qs: Vec<String> = vec![];
        for s in &single {
            qs.push(format!("${s}"));
            qs.push(format!("$[?@{s}]"));
            qs.push(format!("$..[?@{s}]"));
            qs.push(format!("$[?$.a{s}]"));
            qs.push(format!("$[?count(@{s}) > 1]"));
            qs.push(format!("$[?count(@{s}) == count(@..*)]"));
            qs.push(format!("$.*[?value(@{s}) == 1]"));
        }
        ph.push(phase(
            "larger documents, and inside filters",
            format!("{} queries x {} documents", qs.len(), big.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], big.iter()),
        ));
    }
    {
        // depth and width
        let max = if thorough { 1000 } else { 260 };
        ph.push(phase(
            "depths and widths",
            format!("nests of depth 0..={max}, arrays and objects of width 0..={max}"),
            max + 1,
            move |n, cx| {
                let objs = nest(n, &|_| Some("a".into()), json!(1));
                let arrs = nest(n, &|_| None, json!(1));
                let mixed = nest(n, &|d| (d % 2 == 0).then(|| "a".into()), json!({"b": [1, {"a": 2}]}));
                let side = (0..n).fold(json!(0), |v, i| json!({"a": v, "b": i}));
                let side2 = (0..n).fold(json!(0), |v, i| json!([i, v, {"a": i}]));
                let wide = Value::Array((0..n).map(|i| if i % 3 == 0 { json!({"a": [i]}) } else { json!(i) }).collect());
                let wideo = Value::Object((0..n).map(|i| (format!("a{i}"), json!({"a": i}))).collect());
                let all = [&objs, &arrs, &mixed, &side, &side2, &wide, &wideo];
                for q in ["$..*", "$..a", "$..[0]", "$..[-1]", "$..b", "$..['a',0]", "$..[*,*]", "$.a..a", "$..[?@.a]", "$..a.b", "$[?@..b]"] {
                    if n > 40 && q.contains('?') {
                        continue;
                    }
                    eval_all(cx, q, all);
                }
                if n <= 30 {
                    eval_all(cx, "$..*..*", all);
                    eval_all(cx, "$..a..b", all);
                    eval_all(cx, "$..*..a..*", all);
                }
            },
        ));
    }
    {
        let ns = crate::gen::powers(1 << 16);
        ph.push(phase("powers of two", format!("widths {ns:?}, and those up to 1025 as depths"), ns.len(), move |u, cx| {
            let n = ns[u];
            let wide = Value::Array((0..n).map(|i| if i % 300 == 0 || i + 2 > n { json!({"a": [i], "b": {"a": i}}) } else { json!(i) }).collect());
            let wideo = Value::Object((0..n).map(|i| (format!("a{i}"), if i % 300 == 0 || i + 2 > n { json!({"a": i}) } else { json!(i) })).collect());
            let mut all = vec![json!({"x": {"a": 1}, "y": [wide, {"a": 2}], "z": {"a": 3}}), json!([[{"a": 1}], [wideo], {"a": 3}])];
            if n <= 1025 {
                for n in [n - 1, n] {
                    all.push(nest(n, &|_| Some("a".into()), json!(1)));
                    all.push(nest(n, &|_| None, json!(1)));
                    all.push(nest(n, &|d| (d % 2 == 0).then(|| "a".into()), json!({"b": [1, {"a": 2}]})));
                }
            }
            for q in ["$..*", "$..a", "$..[0]", "$..[-1]", "$..b", "$..['a',0]", "$..[::-1]", "$..a.b", "$..b..a"] {
                eval_all(cx, q, all.iter());
            }
        }));
    }
    ph
}
