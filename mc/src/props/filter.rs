//! C05 filters: logical operators, existence tests, nesting.

use crate::engine::{phase, Phase};
use crate::gen::docs;
use crate::judge::eval_all;
use serde_json::{json, Map, Value};
use std::sync::Arc;

/// all expressions with exactly `n` leaves over `atoms`, where each leaf may be negated and each
/// group of two or more leaves put in parentheses, negated or not
pub fn exprs(n: usize, atoms: &[&str], neg: bool) -> Vec<String> {
    fn go(n: usize, atoms: &[&str], neg: bool, memo: &mut Vec<Option<Vec<String>>>) -> Vec<String> {
        if let Some(v) = &memo[n] {
            return v.clone();
        }
        let mut out = vec![];
        if n == 1 {
            for a in atoms {
                out.push(a.to_string());
                let comparison = a.contains(['=', '<', '>']) && !a.contains('[') && !a.contains('(');
                if neg && !comparison {
                    out.push(format!("!{a}"));
                }
                if neg {
                    out.push(format!("!({a})"));
                    out.push(format!("({a})"));
                }
            }
        } else {
            for k in 1..n {
                let l = go(k, atoms, neg, memo);
                let r = go(n - k, atoms, neg, memo);
                // the flat text decides how operators group; each split is also explored in
                // parentheses, so every tree is covered
                for a in &l {
                    for b in &r {
                        for op in ["&&", "||"] {
                            if k == 1 {
                                out.push(format!("{a}{op}{b}"));
                            }
                            if k > 1 {
                                out.push(format!("({a}){op}{b}"));
                                if neg {
                                    out.push(format!("!({a}){op}{b}"));
                                }
                            }
                            if n - k > 1 {
                                out.push(format!("{a} {op} ({b})"));
                                if neg {
                                    out.push(format!("{a} {op} ! ( {b} )"));
                                }
                            }
                        }
                    }
                }
            }
            out.sort();
            out.dedup();
        }
        memo[n] = Some(out.clone());
        out
    }
    go(n, atoms, neg, &mut vec![None; n + 1])
}

/// an array (and an object) whose children have every subset of the members, with odd values
fn truth_docs(keys: &[&str]) -> Vec<Value> {
    let mut out = vec![];
    for vals in [[json!(null), json!(false), json!(0), json!("")], [json!(1), json!(true), json!([]), json!({})]] {
        let rows: Vec<Value> = (0..1 << keys.len())
            .map(|m: usize| {
                Value::Object(
                    keys.iter()
                        .enumerate()
                        .filter(|(i, _)| m >> i & 1 == 1)
                        .map(|(i, k)| (k.to_string(), vals[i % 4].clone()))
                        .collect::<Map<_, _>>(),
                )
            })
            .collect();
        let ob: Map<String, Value> = rows.iter().enumerate().map(|(i, r)| (format!("r{i}"), r.clone())).collect();
        out.push(Value::Array(rows));
        out.push(Value::Object(ob));
    }
    out
}

pub fn c05(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let mut es = vec![];
        es.extend(exprs(1, &["@.a", "@.b", "@.c"], true));
        es.extend(exprs(2, &["@.a", "@.b"], true));
        es.extend(exprs(3, &["@.a", "@.b", "@.c"], false));
        es.extend(exprs(3, &["@.a", "@.b"], true));
        let atoms4: &[&str] = if thorough { &["@.a", "@.b", "@.c", "@.d"] } else { &["@.a", "@.b"] };
        es.extend(exprs(4, atoms4, false));
        if !thorough {
            // four different leaves, in order, every shape
            es.extend(exprs(4, &["@.x"], false).into_iter().map(|mut e| {
                for k in ["@.a", "@.b", "@.c", "@.d"] {
                    e = e.replacen("@.x", k, 1);
                }
                e
            }));
        }
        es.extend(exprs(5, &["@.x"], false).into_iter().map(|mut e| {
            for k in ["@.a", "@.b", "@.c", "@.d", "@.a"] {
                e = e.replacen("@.x", k, 1);
            }
            e
        }));
        es.sort();
        es.dedup();
        let es = Arc::new(es);
        let d = truth_docs(&["a", "b", "c", "d"]);
        let chunk = 50;
        ph.push(phase(
            "logical operators",
            format!("{} expressions of up to 5 leaves with !, &&, || and parentheses x all truth assignments, on arrays and objects", es.len()),
            es.len().div_ceil(chunk),
            move |u, cx| {
                for e in es[u * chunk..].iter().take(chunk) {
                    eval_all(cx, &format!("$[?{e}]"), d.iter());
                }
            },
        ));
    }
    {
        let atoms = [
            "@.a", "@", "$", "@.*", "$.*", "@..a", "@[0]", "@[-1]", "@['a','b']", "@[0:1]", "$.a", "$[0]", "$..b",
            "@.a==1", "@.a!=@.b", "@==1", "@.a<2", "$.a==@.a", "@==$.a", "1==1", "1!=1", "@.a==null", "@['a']==@[\"a\"]",
            "@[?@.a]", "@[?@==1]", "@[?!@.a]", "@[?@.a==$.a]", "@[?$.a]", "@[?@[?@.a]]", "@[?@[?@==1]]", "@.a[?@]", "$[?@.a]",
            "$[?@.a==1]", "@..[?@.b]", "@[?@.a&&@.b]", "@[?@.a||@.b]", "@[?@.a][?@.b]", "@[?@.a,?@.b]", "@[?@.a,0]",
            "length(@)==1", "count(@.*)>1", "value(@.*)==1", "match(@,'a')", "search(@.a,'a')",
            "count(@[?@.a])==1", "value(@[?@==1])==1", "x_n_l(@[?@.a])", "x_l_l(@.a&&@.b)", "x_n_n(@.*)",
        ];
        let mut es: Vec<String> = vec![];
        for a in atoms {
            let plain_test = a.starts_with('@') || a.starts_with('$') || a.starts_with("match") || a.starts_with("search") || a.starts_with("x_");
            let is_cmp = a.ends_with("1") && a.contains("==") && !a.ends_with(']') || (a.contains("==") || a.contains("!=") || a.contains('<') || a.contains(">")) && !a.contains('?');
            es.push(a.to_string());
            if plain_test && !is_cmp {
                es.push(format!("!{a}"));
            }
            es.push(format!("!({a})"));
            for b in atoms {
                es.push(format!("{a} && {b}"));
                es.push(format!("{a}||{b}"));
                if thorough {
                    es.push(format!("!({a}) && {b}"));
                    es.push(format!("!({a} || {b})"));
                }
            }
        }
        let mut d = docs(if thorough { 5 } else { 4 }, &["a", "b"], &[json!(1), json!("a"), json!(null)]);
        d.extend([
            json!([[{"a": 1}, {"b": 1}], {"a": [1, 2], "b": {"a": 1}}, [[1], [[1]]], 1, "a", null]),
            json!({"a": {"a": {"a": 1, "b": 1}}, "b": [{"a": 1}, {"a": 1, "b": 2}], "c": [{"a": {"a": 0}}]}),
            json!({"a": 1, "b": {"a": 1, "b": {"a": 1, "b": {"a": 2}}}, "c": {"a": 2}}),
        ]);
        let d = Arc::new(d);
        ph.push(phase(
            "tests, comparisons and nested filters",
            format!("{} expressions from {} atoms (queries, comparisons, functions, filters nested up to three deep), alone, negated and in pairs x {} documents", es.len(), atoms.len(), d.len()),
            es.len(),
            move |u, cx| {
                eval_all(cx, &format!("$[?{}]", es[u]), d.iter());
                if u % 4 == 0 || thorough {
                    let few = d.iter().rev().take(40);
                    eval_all(cx, &format!("$..[?{}]", es[u]), few.clone());
                    eval_all(cx, &format!("$.*[?{},0]", es[u]), few);
                }
            },
        ));
    }
    {
        // negations in every place, of tests that are always true or false as well
        let tests = [
            "@", "$", "@.a", "@.b", "@.*", "$.a", "$.*", "@[0]", "@..a", "@[?@]", "@[?@.a]", "@['a','b']", "match(@,'a')", "search(@.a,'a')", "x_n_l(@)", "x_n_l(@.a)", "x_n_n(@.*)", "x_l_l(@.a)", "x_l_l(!@)", "x_l_l(1==1)",
        ];
        let comparisons = ["1==1", "1!=1", "1<1", "null==null", "@==@", "@!=@", "@<@", "@.a==@.a", "@.a!=@.a", "@.a>@.a", "$==$", "@==$", "@.a==1", "@.a!=1", "@.a==@.b", "length(@)==length(@)"];
        let mut signed: Vec<String> = vec![];
        for t in tests {
            signed.extend([t.to_string(), format!("!{t}"), format!("!({t})")]);
        }
        for c in comparisons {
            signed.extend([c.to_string(), format!("!({c})")]);
        }
        let few: Vec<String> = ["@", "!@", "$", "!$", "@.a", "!@.a", "!(@.a)", "@.b", "!@.b", "1==1", "1!=1", "!(1==1)", "@==@", "@.a==@.a", "@.a!=@.a", "(@)", "(!@)", "(@.a||!@)", "(@.b&&@)"].map(String::from).to_vec();
        let d = Arc::new(vec![
            json!([{"a": 1}, {"b": 1}, {"a": 1, "b": 1}, {"a": 2, "b": 2}, {}, [], [1], [{"a": 1}], "a", 1, null, true, {"a": null}, {"a": "ba"}]),
            json!({"a": {"a": 1}, "b": {"b": 1}, "c": {"a": 1, "b": 1}, "d": {}, "e": [], "f": "a", "g": {"a": {"a": 1}}}),
            json!({"b": {"a": 0}}),
        ]);
        let n = signed.len();
        let m = few.len();
        let deep = thorough;
        ph.push(phase(
            "negations and constants",
            format!("{n} tests and comparisons, plain and negated, alone and in pairs, and {m} of them in lists of {}, with && and || x {} documents", if thorough { 4 } else { 3 }, d.len()),
            n + m * m,
            move |u, cx| {
                if u < n {
                    let a = &signed[u];
                    eval_all(cx, &format!("$[?{a}]"), d.iter());
                    for b in &signed {
                        eval_all(cx, &format!("$[?{a}&&{b}]"), d.iter());
                        eval_all(cx, &format!("$[?{a} || {b}]"), d.iter());
                    }
                    return;
                }
                let (a, b) = (&few[(u - n) / m], &few[(u - n) % m]);
                for c in &few {
                    for (x, y) in [("&&", "&&"), ("&&", "||"), ("||", "&&"), ("||", "||")] {
                        eval_all(cx, &format!("$[?{a}{x}{b}{y}{c}]"), d.iter());
                        if x != y {
                            eval_all(cx, &format!("$[?{a}{x}({b}{y}{c})]"), d.iter());
                            eval_all(cx, &format!("$[?!({a}{x}{b}){y}{c}]"), d.iter());
                        }
                        if deep {
                            for e in &few {
                                eval_all(cx, &format!("$[?{a}{x}{b}{y}{c}{x}{e}]"), d.iter());
                                eval_all(cx, &format!("$[?{a}{x}!({b}{y}{c}{x}{e})]"), d.iter());
                            }
                        }
                    }
                }
            },
        ));
    }
    {
        // nesting: filters within filters to a depth, with @ and $ at each level
        let max = if thorough { 40 } else { 20 };
        ph.push(phase(
            "depth of nesting",
            format!("filters, parentheses, negations and chains of && and || of size 1..={max}"),
            max,
            move |u, cx| {
                let n = u + 1;
                let deep = (0..n + 1).fold(json!({"a": 1}), |v, i| json!([v, {"a": i}]));
                let deepo = (0..n + 1).fold(json!({"a": 1}), |v, i| json!({"k": v, "a": i, "l": {"a": i}}));
                let truth = truth_docs(&["a", "b", "c"]);
                let mut some = vec![&deep, &deepo];
                some.extend(truth.iter());
                if n <= 12 {
                    for inner in ["@.a", "@.a == 1", "!@.a", "$.a", "@ == $[1]", "@.a == $[1].a", "$[1].a == 3"] {
                        let q = format!("${}{inner}{}", "[?@".repeat(n - 1) + "[?", "]".repeat(n));
                        eval_all(cx, &q, some.iter().copied());
                        if n > 1 {
                            let q = format!("$[?{}{inner}{}]", "count(@[?".repeat(n - 1), "])==1".repeat(n - 1));
                            eval_all(cx, &q, some.iter().copied());
                        }
                    }
                }
                for inner in ["@.a", "@.a && @.b", "@.a || @.b"] {
                    eval_all(cx, &format!("$[?{}{inner}{}]", "(".repeat(n), ")".repeat(n)), truth.iter());
                    eval_all(cx, &format!("$[?{}{inner}{}]", "!(".repeat(n), ")".repeat(n)), truth.iter());
                    eval_all(cx, &format!("$[?{}{inner}{}]", "(!(".repeat(n), "))".repeat(n)), truth.iter());
                    eval_all(cx, &format!("$[?{}{inner}{}]", "(@.b || (".repeat(n), "))".repeat(n)), truth.iter());
                    eval_all(cx, &format!("$[?{}{inner}{}]", "(@.c && !(".repeat(n), "))".repeat(n)), truth.iter());
                }
                let ab: Vec<&str> = (0..n).map(|i| ["@.a", "@.b", "!@.c"][i % 3]).collect();
                for op in ["&&", "||", " && ", " || "] {
                    eval_all(cx, &format!("$[?{}]", ab.join(op)), truth.iter());
                }
                // one leaf of n differs
                for k in 0..n {
                    let mut one = vec!["@.a"; n];
                    one[k] = "@.b";
                    eval_all(cx, &format!("$[?{}]", one.join("&&")), truth.iter());
                    eval_all(cx, &format!("$[?{}]", one.join("||")), truth.iter());
                    let mixed: String = one
                        .iter()
                        .enumerate()
                        .map(|(i, s)| if i == 0 { s.to_string() } else { format!("{}{s}", ["&&", "||"][(i + k) % 2]) })
                        .collect();
                    eval_all(cx, &format!("$[?{mixed}]"), truth.iter());
                }
            },
        ));
    }
    {
        // width of what is filtered
        let max = if thorough { 300 } else { 130 };
        ph.push(phase(
            "widths",
            format!("arrays and objects of 0..={max} children"),
            max + 1,
            move |n, cx| {
                let arr = Value::Array((0..n).map(|i| json!({"i": i, "a": i % 2, "b": if i % 3 == 0 { json!(null) } else { json!([i]) }})).collect());
                let ob = Value::Object((0..n).map(|i| (format!("k{i}"), json!({"i": i, "a": i % 2}))).collect());
                for q in [
                    "$[?@.a==1]", "$[?@.b]", "$[?@.i>=0]", "$[?@.i > 15 && @.i < 40]", "$[?!@.b]", "$[?@.a==0 || @.b==null]",
                    "$[?@.i==$[0].i]", "$[?@.i==$[1].i,?@.i==0]", "$[?@]", "$[?$[5]]", "$[?@.b[?@==7]]",
                ] {
                    eval_all(cx, q, [&arr, &ob]);
                }
            },
        ));
    }
    {
        let ns = crate::gen::powers(1 << 14);
        ph.push(phase("powers of two", format!("chains of && and || of {ns:?} parts with one that differs, and arrays and objects of as many children"), ns.len(), move |u, cx| {
            let n = ns[u];
            let truth = truth_docs(&["a", "b", "c"]);
            for k in [0, 1, 254, 255, 256, n / 2, n - 2, n - 1] {
                if k >= n {
                    continue;
                }
                for op in ["&&", "||"] {
                    let mut one = vec!["@.a"; n];
                    one[k] = "@.b";
                    eval_all(cx, &format!("$[?{}]", one.join(op)), truth.iter());
                    one[k] = "(@.b&&!@.c)";
                    eval_all(cx, &format!("$[?{}]", one.join(op)), truth.iter());
                    one[k] = "@.b==$[5]";
                    eval_all(cx, &format!("$[?!({})]", one.join(op)), truth.iter());
                }
                let mixed: String = (0..n).map(|i| format!("{}{}", if i == 0 { "" } else if (i == k) != (k % 2 == 0) { "||" } else { "&&" }, ["@.a", "@.b"][(i == k) as usize])).collect();
                eval_all(cx, &format!("$[?{mixed}]"), truth.iter());
            }
            let arr = Value::Array((0..n).map(|i| json!({"i": i, "a": i % 2, "b": if i % 3 == 0 { json!(null) } else { json!([i]) }})).collect());
            let ob = Value::Object((0..n).map(|i| (format!("k{i}"), json!({"i": i, "a": i % 2}))).collect());
            for q in ["$[?@.a==1]".to_string(), "$[?@.b]".into(), format!("$[?@.i>={}]", n - 2), format!("$[?@.i==$[{}].i]", n - 1), "$[?!@.b,?@.i==0]".into(), "$[?@.b[?@==7]]".into()] {
                eval_all(cx, &q, [&arr, &ob]);
            }
        }));
    }
    ph
}
