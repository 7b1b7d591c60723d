//! C06 length, count and value; C07 match and search.

use crate::engine::{phase, Phase};
use crate::gen::{docs, quote, tuple};
use crate::iregexp::{CATEGORIES, SAMPLES};
use crate::judge::eval_all;
use serde_json::{json, Value};
use std::sync::Arc;

fn texts() -> Vec<String> {
    let alphabet = ['a', '\u{0}', '"', 'é', '\u{301}', '\u{7ff}', '\u{800}', '中', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}'];
    let mut v = vec![String::new()];
    for k in 1..=3 {
        for i in 0..alphabet.len().pow(k) {
            v.push(tuple(i, k as usize, alphabet.len()).iter().map(|&i| alphabet[i]).collect());
        }
    }
    v
}

/// queries for nodelists, singular or not, from `@` or `$`
const LISTS: &[&str] = &[
    "@", "@.a", "@.b", "@[0]", "@[-1:]", "@[1]", "@.*", "@[*]", "@..*", "@..a", "@..[0]", "@['a','a']", "@['a','b']", "@[0,0]",
    "@[0,-1]", "@[:]", "@[::-1]", "@[1:]", "@[::2]", "@[*,*]", "@..['a','b']", "@.*.*", "@.a.*", "@.a.b", "@[0][0]", "@.*[0]",
    "@.*.a", "@[?@.a]", "@[?@]", "@[?@==1]", "@..[?@==1]", "@[?@.a,?@]", "@.x", "@[9]", "@..x", "@[5:]", "@.x.*", "@[::0]",
    "$", "$.a", "$[0]", "$[-1:]", "$.*", "$..*", "$..a", "$[0,0,0]", "$..[*,*]", "$.x", "$[*][*]", "$.*..*",
];

pub fn c06(thorough: bool) -> Vec<Phase> {
    let leaves = [json!(1), json!("a"), json!(null), json!("éb"), json!(false)];
    let d = Arc::new(docs(if thorough { 5 } else { 4 }, &["a", "b"], &leaves));
    let d5 = Arc::new(docs(if thorough { 6 } else { 5 }, &["a", "b"], &[json!(1), json!("ab")]));
    let mut ph = vec![];
    {
        // every singular argument, and functions of it, compared with everything it could be
        let mut qs = vec![];
        for a in ["@", "@.a", "@['b']", "@[0]", "@[2]", "$", "$.a", "$[1]", "@.x", "value(@.*)", "value(@..a)", "x_v_v(@)", "x_n_v(@.*)", "length(@)", "count(@.*)", "x__v()"] {
            for k in 0..5 {
                for op in ["==", ">", "<="] {
                    qs.push(format!("$[?length({a}){op}{k}]"));
                }
            }
            qs.push(format!("$[?length({a})==$.x]"));
            qs.push(format!("$[?length({a})!=@.x]"));
            qs.push(format!("$[?!(length({a})==@.x)]"));
            for b in ["@", "@.a", "$", "@.x", "value(@.*)"] {
                qs.push(format!("$[?length({a})==length({b})]"));
                qs.push(format!("$[?length({a})<length({b})]"));
            }
            qs.push(format!("$[?length({a})==count(@.*)]"));
            qs.push(format!("$[?x_v_l(length({a}))]"));
            qs.push(format!("$[?x_vv_v(1,length({a}))==x_vv_v(1,2)]"));
            qs.push(format!("$..[?length({a})>=2]"));
        }
        for (l, n) in [("''", 0), ("'a'", 1), ("\"\\u00e9\"", 1), ("'\\uD83D\\uDE00'", 1), ("'e\u{301}'", 2), ("'😀😀'", 2), ("'\\n'", 1)] {
            qs.push(format!("$[?length({l})=={n}]"));
            qs.push(format!("$[?length({l})!={n}]"));
        }
        for l in ["1", "null", "true", "1.5"] {
            qs.push(format!("$[?length({l})==@.x]"));
            qs.push(format!("$[?length({l})==1]"));
            qs.push(format!("$[?length({l})==null]"));
        }
        let (d, d5, qs) = (d.clone(), d5.clone(), Arc::new(qs));
        ph.push(phase(
            "length",
            format!("{} uses of length x {} documents", qs.len(), d.len() + d5.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], d.iter().chain(d5.iter())),
        ));
    }
    {
        let ts = Arc::new(texts());
        ph.push(phase("length of strings", format!("{} strings of up to 3 characters of every encoded width", ts.len()), ts.len().div_ceil(50), move |u, cx| {
            for t in ts[u * 50..].iter().take(50) {
                let doc = json!([t, {"a": t}, [t]]);
                for k in 0..=6 {
                    eval_all(cx, &format!("$[?length(@)=={k}]"), [&doc]);
                }
                eval_all(cx, &format!("$[?length(@.a)==length({})]", quote(t, '"')), [&doc]);
                eval_all(cx, &format!("$[?length({})=={}]", quote(t, '\''), t.chars().count()), [&doc]);
                eval_all(cx, "$[?length(value(@..a))==length(@[0])]", [&doc]);
            }
        }));
    }
    {
        let mut qs = vec![];
        for l in LISTS {
            for k in 0..5 {
                qs.push(format!("$[?count({l})=={k}]"));
            }
            qs.push(format!("$[?count({l})>=5]"));
            qs.push(format!("$[?count({l})==length(@)]"));
            qs.push(format!("$[?count(x_n_n({l}))==count({l})]"));
            qs.push(format!("$[?x_v_l(count({l}))]"));
            for v in ["1", "'a'", "null", "@.a", "$.a", "@", "$.x", "value(@.*)", "false"] {
                qs.push(format!("$[?value({l})=={v}]"));
                qs.push(format!("$[?value({l})!={v}]"));
            }
            qs.push(format!("$[?value({l})<2]"));
            qs.push(format!("$[?length(value({l}))>=1]"));
            qs.push(format!("$[?value({l})==x_v_v(value({l}))]"));
            qs.push(format!("$[?x_v_l(value({l}))]"));
            qs.push(format!("$[?value(x_n_n({l}))==@.a]"));
        }
        let (d, d5, qs) = (d.clone(), d5.clone(), Arc::new(qs));
        ph.push(phase(
            "count and value",
            format!("{} uses of count and value on {} nodelists x {} documents", qs.len(), LISTS.len(), d.len() + d5.len()),
            qs.len(),
            move |u, cx| eval_all(cx, &qs[u], d.iter().chain(d5.iter())),
        ));
    }
    {
        let max = if thorough { 1100 } else { 270 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 17)).collect();
        ph.push(phase("sizes", format!("strings, arrays and objects of size 0..={max}, and about the powers of two up to 2^17"), ns.len(), move |u, cx| {
            let n = ns[u];
            let s: String = (0..n).map(|i| ['a', 'é', '中', '😀'][i % 4]).collect();
            let a = Value::Array((0..n).map(|i| json!(i)).collect());
            let o = Value::Object((0..n).map(|i| (format!("k{i}"), json!(i))).collect());
            let doc = json!([s, a, o, [s], {"a": a}, {"a": o}]);
            for k in [n.wrapping_sub(1), n, n + 1] {
                if k == usize::MAX {
                    continue;
                }
                eval_all(cx, &format!("$[?length(@)=={k}]"), [&doc]);
                eval_all(cx, &format!("$[?length(@.a)=={k}]"), [&doc]);
                eval_all(cx, &format!("$[?count(@.*)=={k}]"), [&doc]);
                eval_all(cx, &format!("$[?count(@.a.*)>={k}]"), [&doc]);
                eval_all(cx, &format!("$[?count(@[*,*])=={}]", 2 * k), [&doc]);
            }
            eval_all(cx, &format!("$[?value(@[?@>={}])=={}]", n.saturating_sub(1), n.saturating_sub(1)), [&doc]);
            eval_all(cx, &format!("$[?value(@[?@>={}])=={}]", n.saturating_sub(2), n.saturating_sub(1)), [&doc]);
            eval_all(cx, "$[?value(@.*)]", [&doc]);
        }));
    }
    ph
}

/// all regular expressions of a given size over some atoms
fn regexes(size: usize, atoms: &[&str]) -> Vec<String> {
    // (text, level): 0 atom, 1 quantified, 2 concatenation, 3 alternation
    let mut by: Vec<Vec<(String, u8)>> = vec![vec![]];
    for n in 1..=size {
        let mut out: Vec<(String, u8)> = vec![];
        if n == 1 {
            out.extend(atoms.iter().map(|a| (a.to_string(), 0)));
            out.push((String::new(), 2));
        }
        if n > 1 {
            for (e, l) in &by[n - 1] {
                if *l == 0 || *l > 1 {
                    let g = if *l == 0 { e.clone() } else { format!("({e})") };
                    for q in ["*", "+", "?", "{2}", "{1,2}", "{0,}", "{0}"] {
                        out.push((format!("{g}{q}"), 1));
                    }
                }
            }
            for k in 1..n {
                for (a, la) in &by[k] {
                    for (b, lb) in &by[n - k] {
                        // concatenation to the right of an atom or quantified atom
                        if *la <= 1 && !b.is_empty() {
                            let b2 = if *lb == 3 { format!("({b})") } else { b.clone() };
                            out.push((format!("{a}{b2}"), 2));
                        }
                        if *la == 3 && *lb <= 1 {
                            out.push((format!("({a}){b}"), 2));
                        }
                        if *la <= 2 {
                            out.push((format!("{a}|{b}"), 3));
                        }
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        by.push(out);
    }
    by.into_iter().flatten().map(|(e, _)| e).collect()
}

fn strings(max: usize, alphabet: &[char]) -> Vec<String> {
    let mut v = vec![String::new()];
    for k in 1..=max {
        for i in 0..alphabet.len().pow(k as u32) {
            v.push(tuple(i, k, alphabet.len()).iter().map(|&i| alphabet[i]).collect());
        }
    }
    v
}

/// expressions that are not valid regular expressions in any dialect at hand
pub const INVALID: &[&str] = &[
    "(", ")", "a)", "(a", "a)|(b", ")(", "a|b)", "())", "(()", "[", "[a", "[b-a]", "*", "+", "?", "*a", "a|*", "(*)", "a{2,1}",
    "a{", "\\", "a\\", "[\\", "a)(b", "(a))|((b", ")|(", "|)", "(|", "[z-a]x", "[]", "[^]", "(?", "a{99999999999}", "\\p{Zzz}", "\\p{",
];

pub fn c07(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let alphabet = ['a', 'b', '\n', '\r'];
    let special = [
        "[a-c]", "[^a-c]", "[-a]", "[a-]", "[^-a]", "[a\\-b]", "[\\^a]", "[a^]", "[\\n]", "[^\\n]", "\\n", "\\r", "\\t", "\\.", "\\(", "\\)",
        "\\*", "\\+", "\\-", "\\?", "\\[", "\\\\", "\\]", "\\^", "\\{", "\\|", "\\}", "\n", "\r", "é", "😀", "[é-ë]", "(a|b)", "(a)", "(ab)", "-", "/", " ",
        "[.]", "[*+?]", "[|]", "[(]", "[)]", "[{}]", "\u{301}", "[^😀]", "#", "a#b", "&", "~", "@", "[a b]", "'", "\"", "0", "_", "<", "=", "!", ":", ",", "%", "`", ";", ".",
    ];
    {
        // small regular expressions, all strings
        let mut es = regexes(3, &["a", "b", ".", "[^a]"]);
        es.extend(regexes(4, &["a", "."]).into_iter().filter(|e| e.len() <= if thorough { 8 } else { 6 }));
        es.sort();
        es.dedup();
        let mut es2 = regexes(1, &special);
        es2.extend(special.iter().flat_map(|e| [format!("{e}*"), format!("({e})+"), format!("a{e}"), format!("{e}|b"), format!("x|{e}")]));
        let ss = strings(if thorough { 4 } else { 3 }, &alphabet);
        // the ends of the text within expressions
        let mut es4 = regexes(3, &["a", "b", "^", "$"]);
        es4.extend(regexes(4, &["a", "^", "$"]).into_iter().filter(|e| thorough || e.len() <= 4));
        es4.retain(|e| e.contains(['^', '$']));
        if thorough {
            es4.extend(regexes(4, &["a", "b", ".", "^", "$"]));
        }
        es4.extend(["^a|b$", "^a$|^b$", "^(a|b)$", "^[^a]$", "[^^]$", "[$]", "[^$]*", "\\^a", "a\\^", "^\\^", "\\^$", "^a|b|c$", "(^a|b)$", "^(a|b$)", "^a.*b$", "^$|a", "a|^$", "^.*$|b", "^a.b$", "a$b", "a^b", ".$.", ".^.", "^\\n$", "^.$\\n", "a$\\n"].map(String::from));
        es4.sort();
        es4.dedup();
        let ss4 = strings(if thorough { 4 } else { 3 }, &['a', 'b', '^', '$', '\n']);
        let mut ss2 = strings(1, &['a', 'é', '\u{2028}', '\u{85}', '\u{301}', 'A', '\n', '\r']);
        ss2.extend(strings(2, &['a', '😀', '.', '-', '\n']));
        for c in (0x20..0x7fu8).map(|c| c as char) {
            ss2.push(c.to_string());
            ss2.push(format!("a{c}"));
        }
        for s in ["a#b", "aXb", "c", "d", "ë", "ê", "abc", "cab", "xay", "\u{0}", "\u{b}", "\u{c}", "\u{2029}", "\r\n", "a\r\nb", "\t", "\\\\"] {
            ss2.push(s.into());
        }
        let mut es3 = vec![];
        if thorough {
            es3 = regexes(4, &["a", "b", ".", "[^a]"]);
            es3.retain(|e| !es.contains(e));
        }
        for (name, es, ss) in [
            ("expressions and strings", es, ss),
            ("special expressions and characters", es2, ss2),
            ("ends of the text", es4, ss4),
            ("larger expressions and shorter strings", es3, strings(2, &alphabet)),
        ] {
            if es.is_empty() {
                continue;
            }
            let doc = Arc::new(Value::Array(ss.iter().map(|s| json!(s)).collect()));
            let es = Arc::new(es);
            ph.push(phase(
                name,
                format!("{} expressions x {} strings, match and search", es.len(), ss.len()),
                es.len(),
                move |u, cx| {
                    for f in ["match", "search"] {
                        eval_all(cx, &format!("$[?{f}(@,{})]", quote(&es[u], '\'')), [&*doc]);
                    }
                },
            ));
        }
    }
    {
        // the expression comes from the document
        let mut es = regexes(2, &["a", "b", ".", "[^a]", "(a|b)", "\\."]);
        es.extend(INVALID.iter().map(|s| s.to_string()));
        let ss = strings(if thorough { 3 } else { 2 }, &alphabet);
        let es = Arc::new(es);
        ph.push(phase(
            "expressions from nodes",
            format!("{} expressions held by the document x {} strings, valid and invalid", es.len(), ss.len()),
            ss.len(),
            move |u, cx| {
                let doc = Value::Array(es.iter().map(|e| json!({"s": ss[u], "r": e})).collect());
                for q in [
                    "$[?match(@.s,@.r)]", "$[?search(@.s,@.r)]", "$[?!match(@.s,@['r'])]", "$[?!search(@['s'],@.r)]",
                    "$[?match(value(@.s),value(@.r))]", "$[?search(x_v_v(@.s),x_v_v(@.r))]", "$[?match(@.s,@.r)||search(@.s,@.r)]",
                    "$[?match(@.s,@.r)&&!search(@.s,@.r)]", "$[?x_l_l(match(@.s,@.r))]",
                ] {
                    eval_all(cx, q, [&doc]);
                }
            },
        ));
    }
    {
        let es: Vec<String> = INVALID.iter().map(|s| s.to_string()).collect();
        let es = Arc::new(es);
        let doc = Arc::new(Value::Array(strings(3, &['a', 'b', '(', ')', '|', '*', '[', '\\']).iter().map(|s| json!(s)).collect()));
        ph.push(phase("invalid expressions", format!("{} invalid expressions as literals", es.len()), es.len(), move |u, cx| {
            for f in ["match", "search"] {
                eval_all(cx, &format!("$[?{f}(@,{})]", quote(&es[u], '"')), [&*doc]);
                eval_all(cx, &format!("$[?!{f}(@,{})]", quote(&es[u], '"')), [&*doc]);
            }
        }));
    }
    {
        // arguments of every kind, in every form
        let vals = [
            json!("a"), json!("ab"), json!(""), json!("."), json!("a)|(b"), json!(1), json!(null), json!(true), json!(["a"]), json!([]),
            json!({"a": "a"}), json!({}), json!(1.5),
        ];
        let lits = ["'a'", "'ab'", "''", "'.'", "'.*'", "1", "null", "true", "false", "1.5", "@.x", "$.x", "value(@.x)", "value(@.*)"];
        let mut qs = vec![];
        for f in ["match", "search"] {
            for a in ["@.s", "@['s']", "value(@..s)", "x_v_v(@.s)"].iter().chain(lits.iter()) {
                for b in ["@.r", "@['r']", "value(@..r)", "x_v_v(@.r)"].iter().chain(lits.iter()) {
                    qs.push(format!("$[?{f}({a},{b})]"));
                }
            }
        }
        let mut rows = vec![];
        for s in vals.iter().map(Some).chain([None]) {
            for r in vals.iter().map(Some).chain([None]) {
                let mut o = serde_json::Map::new();
                if let Some(s) = s {
                    o.insert("s".into(), s.clone());
                }
                if let Some(r) = r {
                    o.insert("r".into(), r.clone());
                }
                rows.push(Value::Object(o));
            }
        }
        let doc = Arc::new(Value::Array(rows));
        let qs = Arc::new(qs);
        ph.push(phase(
            "kinds of arguments",
            format!("{} calls x {} pairs of values of every kind or absent", qs.len(), 14 * 14),
            qs.len().div_ceil(8),
            move |u, cx| {
                for q in qs[u * 8..].iter().take(8) {
                    eval_all(cx, q, [&*doc]);
                }
            },
        ));
    }
    {
        // categories, alone, negated, in classes, against a character of every category
        let cats: Vec<String> = CATEGORIES.iter().flat_map(|c| [format!("\\p{{{c}}}"), format!("\\P{{{c}}}")]).collect();
        let mut ts: Vec<String> = SAMPLES.iter().flat_map(|(_, s)| s.chars().take(if thorough { 4 } else { 2 })).chain(if thorough { 0..0x20u8 } else { 9..11 }.map(|b| b as char)).chain(['\u{85}']).map(|c| c.to_string()).collect();
        ts.extend(["", "ab", "aB", "a1", "1a", "é\u{301}", "中a", "\u{301}\n"].map(String::from));
        let doc = Arc::new(Value::Array(ts.iter().map(|s| json!(s)).collect()));
        let n = cats.len();
        let all = if thorough { 6 } else { 1 };
        let cats = Arc::new(cats);
        ph.push(phase("categories", format!("{n} categories, alone, in classes and in pairs with {all} of them, x {} strings, match and search", ts.len()), n, move |u, cx| {
            let c = &cats[u];
            let mut es = vec![c.clone(), format!("[{c}]"), format!("[^{c}]"), format!("[{c}b-]"), format!("[^-1{c}]"), format!("{c}*"), format!("{c}{{2}}"), format!("a{c}|{c}b"), format!("({c}|\\n)+")];
            for d in cats.iter().cycle().skip(u + 3).take(all) {
                es.push(format!("{c}{d}"));
                es.push(format!("[{c}{d}]"));
            }
            for e in es {
                for f in ["match", "search"] {
                    eval_all(cx, &format!("$[?{f}(@,{})]", quote(&e, '"')), [&*doc]);
                }
            }
        }));
    }
    {
        // expressions that compile to something large
        let ns: Vec<usize> = if thorough { (0..40).chain((40..=120).step_by(8)).collect() } else { (0..12).chain((12..=60).step_by(6)).collect() };
        const BODIES: &[&str] = &["", "a", ".", "[^b]", "[a-zé]", "[^\n]", "\\p{L}", "\\P{N}", "[\\p{Ll}1]", "(ab|a)", "(a|.b)"];
        ph.push(phase("large expressions", format!("{} counts up to {}: repetitions of characters, classes, categories and groups, nested; long literals, classes and lists of branches", ns.len(), ns[ns.len() - 1]), ns.len() * BODIES.len(), move |u, cx| {
            let n = ns[ns.len() - 1 - u / BODIES.len()];
            let body = BODIES[u % BODIES.len()];
            let m = n.isqrt();
            let lit: String = (0..n * 20).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
            let branches: String = (0..n * 10).map(|i| format!("x{i}y|")).collect();
            let class: String = (0..n * 5).filter_map(|i| char::from_u32(0x100 + 3 * i as u32)).collect();
            let mut es: Vec<(String, Vec<String>)> = vec![];
            if body.is_empty() {
                es = vec![
                (lit.clone(), vec![lit.clone(), format!("{lit}a"), lit.chars().rev().collect()]),
                (format!("({branches}z)"), vec![format!("x{}y", n * 10), format!("x{}y", (n * 10).saturating_sub(1)), "z".into(), "x0y".into()]),
                (format!("[{class}a]"), vec!["a".into(), "\u{100}".into(), "\u{101}".into(), char::from_u32((0x100 + 15 * n as u32).saturating_sub(3)).unwrap().to_string()]),
                ];
            } else {
                let a = "a".repeat(n);
                let texts = vec![a.clone(), format!("{a}a"), a.chars().skip(1).collect(), format!("{a}b"), format!("{}é", a.chars().skip(1).collect::<String>()), format!("{}1", a.chars().skip(1).collect::<String>())];
                es.push((format!("{body}{{{n}}}"), texts.clone()));
                es.push((format!("({body}{{{m}}}){{{m}}}"), [m * m, m * m + 1, (m * m).saturating_sub(1)].map(|k| "a".repeat(k)).to_vec()));
                if n % 5 == 0 {
                    es.push((format!("{body}{{{n},{}}}b", 2 * n), vec![format!("{a}b"), format!("{a}{a}b"), format!("{a}{a}ab"), format!("{}b", a.chars().skip(1).collect::<String>())]));
                }
            }
            for (e, ts) in es {
                let doc = Value::Array(ts.iter().map(|t| json!(t)).collect());
                for f in ["match", "search"] {
                    eval_all(cx, &format!("$[?{f}(@,{})]", quote(&e, '\'')), [&doc]);
                }
            }
        }));
    }
    {
        // quantifier counts and long strings
        let max = if thorough { 60 } else { 25 };
        ph.push(phase("counts", format!("quantifiers and lengths of 0..={max}"), max + 1, move |n, cx| {
            let doc = Value::Array((0..=max + 2).flat_map(|k| [json!("a".repeat(k)), json!(format!("{}b", "a".repeat(k))), json!(format!("\n{}\n", "a".repeat(k)))]).collect());
            for e in [
                format!("a{{{n}}}"), format!("a{{{n},}}"), format!("a{{0,{n}}}"), format!("a{{{n},{}}}", n + 2), format!("(a|b){{{n}}}"), "a".repeat(n),
                format!("{}b", "a?".repeat(n.min(12))), format!(".{{{n}}}"), format!("(a{{{n}}}|b)"), format!("[^b]{{{n}}}b?"), format!("(a|){{{n}}}"),
            ] {
                eval_all(cx, &format!("$[?match(@,'{e}')]"), [&doc]);
                eval_all(cx, &format!("$[?search(@,'{e}')]"), [&doc]);
            }
        }));
    }
    {
        let ns = crate::gen::powers(if thorough { 1 << 12 } else { 1 << 10 });
        ph.push(phase("powers of two", format!("strings of lengths {ns:?}, and expressions as long up to 1025"), ns.len(), move |u, cx| {
            let n = ns[u];
            let a = "a".repeat(n);
            let doc = json!([a, format!("{a}b"), format!("b{a}"), format!("{a}a"), format!("{}b{}", &a[..n / 2], &a[n / 2..]), format!("{a}\n"), "é".repeat(n), "😀".repeat(n), ""]);
            let mut es: Vec<String> = ["a*", "a+b", "b?a*", "[^b]*", "a*b", "(aa)*", ".*", "b", "b.*", "é*", ".*.", "(a|b)+", "(😀)+"].iter().map(|s| s.to_string()).collect();
            if n <= 1025 {
                es.push(a.clone());
                es.push(format!("{a}b?"));
                es.push("é".repeat(n));
                es.push(format!("({a}|b.*)"));
            }
            if n <= 513 {
                es.push(format!("a{{{n}}}"));
                es.push(format!("a{{{},}}b", n - 1));
                es.push(format!(".{{0,{n}}}"));
            }
            for e in es {
                // a search in the model takes time quadratic in the length of the string
                for f in if n > 1025 { &["match"][..] } else { &["match", "search"] } {
                    eval_all(cx, &format!("$[?{f}(@,'{e}')]"), [&doc]);
                }
            }
        }));
    }
    ph
}
