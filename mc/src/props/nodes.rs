//! Result lists: C14 plain and located results, C15 normalized paths, C16 JSON pointers and path
//! elements, C18 the views of a list, C19 deduplication, C28 serialization.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{docs, kinds, nest, syntax_strings, tuple, SYNTAX};
use crate::judge::{same_step, show_path};
use crate::props::select::odd_chars;
use crate::eval::{Node, Step};
use serde_json::{json, Map, Value};
use serde_json_path::{JsonPath, JsonPathExt, LocatedNode, LocatedNodeList, NodeList, NormalizedPath, PathElement};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// follow the elements of a location from the root
fn walk<'d>(doc: &'d Value, loc: &NormalizedPath) -> Option<&'d Value> {
    let mut v = doc;
    for e in loc.iter() {
        v = match (e, v) {
            (PathElement::Name(n), Value::Object(o)) => o.iter().find(|(k, _)| k == n)?.1,
            (PathElement::Index(i), Value::Array(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}

/// all nodes of a document, with the steps that lead to them
pub fn all_nodes(doc: &Value) -> Vec<Node<'_>> {
    fn go<'d>(n: Node<'d>, out: &mut Vec<Node<'d>>) {
        let kids: Vec<Node<'d>> = match n.1 {
            Value::Array(a) => a.iter().enumerate().map(|(i, v)| ([&n.0[..], &[Step::Idx(i)]].concat(), v)).collect(),
            Value::Object(o) => o.iter().map(|(k, v)| ([&n.0[..], &[Step::Key(k)]].concat(), v)).collect(),
            _ => vec![],
        };
        out.push(n);
        for k in kids {
            go(k, out);
        }
    }
    let mut out = vec![];
    go((vec![], doc), &mut out);
    out
}

/// the normalized path of RFC 9535 section 2.7, written from its grammar
pub fn canonical(steps: &[Step]) -> String {
    let mut s = String::from("$");
    for st in steps {
        match st {
            Step::Idx(i) => s.push_str(&format!("[{i}]")),
            Step::Key(k) => {
                s.push_str("['");
                for c in k.chars() {
                    let u = c as u32;
                    match u {
                        0x08 => s.push_str("\\b"),
                        0x09 => s.push_str("\\t"),
                        0x0a => s.push_str("\\n"),
                        0x0c => s.push_str("\\f"),
                        0x0d => s.push_str("\\r"),
                        0x27 => s.push_str("\\'"),
                        0x5c => s.push_str("\\\\"),
                        _ if u < 0x20 => {
                            let hex = b"0123456789abcdef";
                            s.push_str("\\u00");
                            s.push(hex[(u / 16) as usize] as char);
                            s.push(hex[(u % 16) as usize] as char);
                        }
                        _ => s.push(c),
                    }
                }
                s.push_str("']");
            }
        }
    }
    s
}

fn pointer(steps: &[Step]) -> String {
    let mut s = String::new();
    for st in steps {
        s.push('/');
        match st {
            Step::Idx(i) => s.push_str(&i.to_string()),
            Step::Key(k) => {
                for c in k.chars() {
                    match c {
                        '~' => s.push_str("~0"),
                        '/' => s.push_str("~1"),
                        c => s.push(c),
                    }
                }
            }
        }
    }
    s
}

/// RFC 6901 evaluation, written here
fn resolve<'d>(doc: &'d Value, ptr: &str) -> Option<&'d Value> {
    if ptr.is_empty() {
        return Some(doc);
    }
    let mut v = doc;
    for t in ptr.strip_prefix('/')?.split('/') {
        let mut name = String::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            if c == '~' {
                match it.next()? {
                    '0' => name.push('~'),
                    '1' => name.push('/'),
                    _ => return None,
                }
            } else {
                name.push(c);
            }
        }
        v = match v {
            Value::Object(o) => o.get(&name)?,
            Value::Array(a) => {
                if name.is_empty() || name.len() > 1 && name.starts_with('0') || !name.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                a.get(name.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(v)
}

fn key_of<'a>(loc: &'a NormalizedPath) -> Vec<Result<usize, &'a str>> {
    loc.iter()
        .map(|e| match e {
            PathElement::Name(n) => Err(*n),
            PathElement::Index(i) => Ok(*i),
        })
        .collect()
}

fn path_of(q: &str) -> Result<JsonPath, String> {
    JsonPath::parse(q).map_err(|e| format!("valid query {q:?} is rejected: {e}"))
}

fn case(cx: &mut Ctx, kind: &str, q: &str, d: &Value, x: Value, f: &mut dyn FnMut(&mut Stats) -> Verdict) {
    cx.case(&|| Case::new(kind, q).doc(d).x(x.clone()), f);
}

/// segments of every kind: names, wildcards, indices, slices, several selectors, filters with
/// tests, comparisons, functions and nesting; each as child and as descendant segment
pub fn segments() -> Vec<String> {
    let brackets = [
        "*", "'a'", "\"b\"", "0", "1", "-1", "-2", "2", ":", "::-1", "1:", ":-1", "::2", "-2:", "5:0:-1", "::0", "0,0", "'a',0", "*,0", "::-1,*", "'a','a'", "-1,0,'b'", "'b','a',*", "?@", "?@.a", "?@[0]", "?@.a==1", "?@==1", "?@>0",
        "?@<='a'", "?!@.a", "?@.*", "?$.a", "?$..a", "?@..a", "?length(@)>0", "?length(@.a)==1", "?count(@.*)>1", "?count(@..*)==2", "?value(@..a)==1", "?match(@,'a')", "?search(@.a,'.')", "?@[?@]", "?@[?@.a==$.a]", "?@[?@[?@]]",
        "?@.a||@[0]", "?@.a&&@.b", "?(@.a||@.b)&&!@[1]", "?@!=1", "?@!=1,0", "?@.a,?@.b", "?@,'a'", "?@[-1]==1", "?@.a>=@.b", "?@.x==@.y", "?@.a==@.b", "?x_n_n(@.*)", "?x_n_v(@.*)==1", "?x_l_l(@.a)", "?x_v_l(@.a)", "?@==$", "?@[1:]", "?@['a','b']", "?@.a.b",
        "?1==1", "?@[::-1]",
    ];
    let mut v: Vec<String> = vec![".a".into(), ".b".into(), ".*".into(), "..a".into(), "..*".into()];
    for b in brackets {
        v.push(format!("[{b}]"));
        v.push(format!("..[{b}]"));
    }
    v
}

// ---- C14 ----

pub fn judge_pair(q: &str, p: &JsonPath, doc: &Value, st: &mut Stats) -> Verdict {
    let plain = p.query(doc).all();
    let located = p.query_located(doc);
    st.traces += 2;
    st.states += located.len() as u64 + 1;
    ensure!(
        plain.len() == located.len(),
        "query of {q:?} gives {} nodes, query_located {}",
        plain.len(),
        located.len()
    );
    for (i, (a, b)) in plain.iter().zip(located.iter()).enumerate() {
        st.transitions += b.location().len() as u64 + 1;
        ensure!(
            std::ptr::eq(*a, b.node()),
            "node {i} of {q:?} is {a} by query, but {} (at {}) by query_located",
            b.node(),
            b.location()
        );
        ensure!(
            walk(doc, b.location()).is_some_and(|n| std::ptr::eq(n, b.node())),
            "node {i} of {q:?} is {}, but its location {} leads elsewhere",
            b.node(),
            b.location()
        );
    }
    st.class(if plain.is_empty() { "no node" } else { "nodes" });
    Ok(())
}

fn doc_space(n: usize) -> Vec<Value> {
    let mut d = docs(n, &["a", "b"], &[json!(1), json!("a")]);
    d.extend(kinds());
    d.extend([
        json!([[1, 2, 3], {"a": [1, {"b": 1, "a": "a"}], "b": [[], {}]}, "ab", null, 1.0, {"x": {"a": {"b": 2}, "": [null]}}]),
        json!({"a": [[[1, "a"], 1], {"a": {"a": [1]}}], "b": {"b": {"a": 1, "b": 1}, "a": {"a": 1}}, "~": {"/": 1}}),
    ]);
    d
}

pub fn c14(thorough: bool) -> Vec<Phase> {
    let segs = Arc::new(segments());
    let n = segs.len();
    let mut ph = vec![];
    let small = Arc::new(doc_space(4));
    let big = Arc::new(doc_space(if thorough { 6 } else { 5 }));
    let run = |cx: &mut Ctx, q: &str, ds: &[Value]| match JsonPath::parse(q) {
        Ok(p) => {
            for d in ds {
                case(cx, "pair", q, d, Value::Null, &mut |st| judge_pair(q, &p, d, st));
            }
        }
        Err(_) => case(cx, "pair", q, &Value::Null, Value::Null, &mut |_| path_of(q).map(|_| ())),
    };
    {
        let (segs, big) = (segs.clone(), big.clone());
        ph.push(phase("one segment", format!("no segment, and {n} segments of every kind, on {} documents", big.len()), n + 1, move |u, cx| {
            run(cx, &format!("${}", if u == n { "" } else { &segs[u] }), &big);
        }));
    }
    {
        let (segs, small, big) = (segs.clone(), small.clone(), big.clone());
        ph.push(phase("two segments", format!("all pairs of the {n} segments, on {} documents", if thorough { big.len() } else { small.len() }), n, move |u, cx| {
            for b in segs.iter() {
                run(cx, &format!("${}{b}", segs[u]), if thorough { &big } else { &small });
            }
        }));
    }
    {
        let segs = segs.clone();
        let ds: Arc<Vec<Value>> = Arc::new(doc_space(if thorough { 3 } else { 2 }));
        let step = if thorough { 1 } else { 3 };
        ph.push(phase("three segments", format!("triples of the {n} segments{}, on {} documents", if thorough { "" } else { ", the middle one every third" }, ds.len()), n, move |u, cx| {
            for b in segs.iter().skip(u % step).step_by(step) {
                for c in segs.iter() {
                    run(cx, &format!("${}{b}{c}", segs[u]), &ds);
                }
            }
        }));
    }
    {
        // the same selectors in the queries inside filters
        let segs = segs.clone();
        let ds: Arc<Vec<Value>> = Arc::new(doc_space(4));
        ph.push(phase("inside filters", format!("every segment inside 8 filters, alone and in pairs, on {} documents", ds.len()), n, move |u, cx| {
            let s = &segs[u];
            for q in ["$[?@S]", "$[?!$S]", "$[?count(@S)>1]", "$[?value(@S)==1]", "$..[?@S]", "$[?@[?@S]]", "$[?x_n_n(@S)]", "$[?x_l_l(!@S&&@)]"] {
                run(cx, &q.replace('S', s), &ds);
            }
        }));
    }
    ph
}

// ---- C15 ----

pub fn judge_paths(doc: &Value, st: &mut Stats) -> Verdict {
    // the root itself, and everything below it
    for q in ["$", "$..*"] {
        let p = path_of(q)?;
        let all: BTreeMap<*const Value, Vec<Step>> = all_nodes(doc).into_iter().map(|(s, v)| (v as *const Value, s)).collect();
        let list = p.query_located(doc);
        st.traces += 1;
        ensure!(list.len() == if q == "$" { 1 } else { all.len() - 1 }, "{q} selects {} of {} nodes", list.len(), all.len());
        for n in list.iter() {
            st.states += 1;
            st.transitions += n.location().len() as u64;
            let want_steps = &all[&(n.node() as *const Value)];
            let text = n.location().to_string();
            let want = canonical(want_steps);
            ensure!(text == want, "the location of {} displays as {text:?}, its normalized path is {want:?}", show_path(want_steps));
            ensure!(format!("{}", n.location().clone()) == want, "a clone of the location displays otherwise");
            // the alternative formatting flags must not matter for the text a user gets
            let s = serde_json::to_value(n.location()).map_err(|e| e.to_string())?;
            ensure!(s == json!(want), "location {want:?} serializes as {s}");
            let s = serde_json::to_string(n.location()).map_err(|e| e.to_string())?;
            ensure!(serde_json::from_str::<String>(&s).is_ok_and(|s| s == want), "location {want:?} serializes as {s}");
            let back = JsonPath::parse(&text).map_err(|e| format!("the normalized path {text:?} is rejected: {e}"))?;
            let r = back.query_located(doc);
            st.traces += 1;
            ensure!(
                r.len() == 1 && std::ptr::eq(r.first().unwrap().node(), n.node()) && r.first().unwrap().location() == n.location(),
                "the normalized path {text:?} selects {} nodes: {:?}",
                r.len(),
                r.iter().take(3).map(|n| n.location().to_string()).collect::<Vec<_>>()
            );
            let r = back.query(doc).all();
            ensure!(r.len() == 1 && std::ptr::eq(r[0], n.node()), "the normalized path {text:?} selects {} nodes by query", r.len());
        }
    }
    Ok(())
}

fn paths(cx: &mut Ctx, d: &Value) {
    case(cx, "paths", "", d, Value::Null, &mut |st| judge_paths(d, st));
}

/// an object with these names and their neighbours
fn named(names: &[String]) -> Value {
    Value::Object(names.iter().enumerate().map(|(i, n)| (n.clone(), if i % 3 == 0 { json!([i]) } else { json!(i) })).collect())
}

/// documents for the properties about locations, as phases over a judge
fn location_phases(thorough: bool, run: fn(&mut Ctx, &Value)) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let d = docs(if thorough { 7 } else { 6 }, &["a", "'"], &[json!(1)]);
        let d = Arc::new(d);
        let chunk = d.len().div_ceil(400);
        ph.push(phase("shapes", format!("all {} documents of up to {} nodes", d.len(), if thorough { 7 } else { 6 }), d.len().div_ceil(chunk), move |u, cx| {
            for d in d[u * chunk..].iter().take(chunk) {
                run(cx, d);
            }
        }));
    }
    {
        // every character as a name, with neighbours that a wrong escape would turn it into
        ph.push(phase("every character", "every Unicode scalar value as a name, and beside others in a name", 0x110, move |u, cx| {
            for lo in (0..0x1000u32).step_by(64) {
                let cs: Vec<char> = (0..64).filter_map(|i| char::from_u32((u as u32) << 12 | lo | i)).collect();
                if cs.is_empty() {
                    continue;
                }
                let mut names = vec![];
                for c in &cs {
                    names.push(c.to_string());
                    names.push(format!("a{c}b"));
                    if u < 4 || thorough {
                        names.push(format!("{c}{c}"));
                        names.push(format!("\\{c}"));
                        names.push(format!("'{c}"));
                        names.push(format!("~{c}"));
                        names.push(format!("{c}/"));
                    }
                }
                run(cx, &named(&names));
            }
        }));
    }
    {
        let mut cs = odd_chars();
        if !thorough {
            cs.retain(|c| (*c as u32) < 0x80 || (*c as u32) >= 0x17e);
        }
        let cs = Arc::new(cs);
        let n = cs.len();
        ph.push(phase("pairs of characters", format!("all pairs of {n} characters as names, in pieces of one object each"), n, move |u, cx| {
            let names: Vec<String> = cs.iter().map(|c| format!("{}{c}", cs[u])).collect();
            run(cx, &named(&names));
            let inner = named(&names[..8]);
            let d = json!({cs[u].to_string(): [inner, {cs[u].to_string(): 1}]});
            run(cx, &d);
        }));
    }
    {
        let pieces: Vec<&str> = vec!["'", "\"", "\\", "\n", "\u{8}", "\u{1f}", "\u{7f}", "a", "0", "~", "/", "~0", "~1", "]", "[", "$", "@", ".", "u0041", "é", "😀", "-", " ", "\u{0}"];
        let n = pieces.len();
        let k = if thorough { 4 } else { 3 };
        ph.push(phase("names of several pieces", format!("all names of up to {k} of {n} pieces, in objects of {n}"), n * n, move |u, cx| {
            let ab = format!("{}{}", pieces[u % n], pieces[u / n]);
            run(cx, &named(&[ab.clone(), String::new()]));
            for l in 0..=k - 3 {
                for i in 0..n.pow(l as u32) {
                    let m: String = tuple(i, l, n).iter().map(|&i| pieces[i]).collect();
                    let names: Vec<String> = pieces.iter().map(|p| format!("{ab}{m}{p}")).collect();
                    run(cx, &named(&names));
                }
            }
        }));
    }
    {
        let n = SYNTAX.len();
        let k = if thorough { 3 } else { 2 };
        ph.push(phase("names like syntax", format!("all names of up to {k} of {n} pieces of query syntax, in objects of {n}"), n, move |u, cx| {
            for s in syntax_strings(u, k).chunks(n) {
                run(cx, &named(s));
            }
        }));
    }
    {
        let max = if thorough { 400 } else { 120 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 14)).collect();
        ph.push(phase("depth and length", format!("chains of depth 0..={max}, arrays of up to 0..={} elements, names of 0..={max} characters; and about powers of two up to 2^14 (depth 1025)", max * 10), ns.len(), move |u, cx| {
            let n = ns[u];
            // what matters comes late in a name, or early
            let names: Vec<String> = ["'", "\\", "\n", "\u{8}", "\u{1}", "\u{1f}", "\"", "\u{7f}", "~", "/", "é"].iter().flat_map(|c| [format!("{}{c}", "x".repeat(n)), format!("{c}{}", "x".repeat(n)), format!("{}{c}0", "é".repeat(n))]).collect();
            run(cx, &named(&names));
            if n > max {
                if n <= 1025 {
                    run(cx, &nest(n, &|_| None, json!(1)));
                    run(cx, &nest(n, &|d| Some(["a", "'", "~/"][d % 3].to_string()), json!(1)));
                }
                run(cx, &Value::Array(vec![json!(0); n]));
                run(cx, &Value::Object((0..n).map(|i| (i.to_string(), json!(0))).collect()));
                for c in ["a", "'", "\\", "\n", "é", "~", "/"] {
                    run(cx, &json!({c.repeat(n): {c.repeat(n + 1): 1}}));
                }
                return;
            }
            run(cx, &nest(n, &|_| None, json!(1)));
            run(cx, &nest(n, &|d| Some(format!("k{d}")), json!(1)));
            run(cx, &nest(n, &|d| (d % 2 == 0).then(|| "'\\".to_string()), json!([1, {}])));
            let arr: Vec<Value> = (0..n * 10).map(|i| json!(i)).collect();
            if n % 10 == 0 || n < 13 {
                run(cx, &Value::Array(arr));
            }
            for c in ["a", "'", "\\", "\n", "é", "\u{1}", "~", "/"] {
                run(cx, &json!({c.repeat(n): {c.repeat(n + 1): 1}}));
            }
        }));
    }
    {
        // names that look like other notations of names and indices
        ph.push(phase("confusable", "names that look like indices, escapes, or other paths, next to what they look like", 1, move |_, cx| {
            let names: Vec<String> = [
                "", "0", "1", "01", "-0", "-1", "+1", "1.0", "1e0", "*", "..", ":", "?@", "'a'", "\"a\"", "['a']", "a']['b", "a'", "'", "\\'", "\\\\'", "\\u0027", "\\u0000", "\\n", "\\", "\\\\", "\\b", "\u{8}", "\n", "n", "b", "a/b", "a~1b", "a~b", "a~0b", "~01",
                "~10", "~", "/", "//", "~~", "~/", "/~", "é", "e\u{301}", "\u{e9}\u{301}", "A", "a", "$", "@", "$['a']", "a.b", "a b", " a", "a ", "\t", "null", "true",
            ]
            .iter()
            .map(|s| s.to_string())
            .collect();
            run(cx, &named(&names));
            run(cx, &json!({"a": named(&names), "0": [named(&names), {"0": named(&names)}], "": {"": {"": ""}}}));
            run(cx, &json!([[0, [1, [2]]], {"0": {"0": 1}, "a": {"a": {"b": 1}}, "a']['a": 1, "a']['a']['b": 2}]));
        }));
    }
    ph
}

pub fn c15(thorough: bool) -> Vec<Phase> {
    location_phases(thorough, paths)
}

// ---- C16 ----

pub fn judge_pointers(doc: &Value, st: &mut Stats) -> Verdict {
    let nodes = all_nodes(doc);
    let all: BTreeMap<*const Value, &Vec<Step>> = nodes.iter().map(|(s, v)| (*v as *const Value, s)).collect();
    let p = path_of("$..*")?;
    let root = path_of("$")?.query_located(doc);
    let list = p.query_located(doc);
    st.traces += 2;
    ensure!(list.len() + 1 == nodes.len() && root.len() == 1, "$..* selects {} of {} nodes", list.len(), nodes.len());
    let mut seen = BTreeMap::new();
    let pool: Vec<&PathElement> = list.iter().take(40).flat_map(|n| n.location().last()).collect();
    for (k, n) in root.iter().chain(list.iter()).enumerate() {
        let steps = all[&(n.node() as *const Value)];
        let loc = n.location();
        st.states += 1;
        st.transitions += loc.len() as u64;
        let ptr = loc.to_json_pointer();
        ensure!(ptr == pointer(steps), "the JSON pointer of {} is given as {ptr:?}", show_path(steps));
        ensure!(
            doc.pointer(&ptr).is_some_and(|v| std::ptr::eq(v, n.node())) && resolve(doc, &ptr).is_some_and(|v| std::ptr::eq(v, n.node())),
            "the JSON pointer {ptr:?} of {} leads to {:?}",
            show_path(steps),
            doc.pointer(&ptr)
        );
        if let Some(o) = seen.insert(ptr.clone(), steps) {
            return Err(format!("{} and {} have the same JSON pointer {ptr:?}", show_path(o), show_path(steps)));
        }
        if k < 40 {
            // writing through the pointer changes exactly this node
            let mut copy = doc.clone();
            let mark = json!({"\u{0}mark": k});
            match copy.pointer_mut(&ptr) {
                Some(m) => *m = mark.clone(),
                None => return Err(format!("the JSON pointer {ptr:?} of {} leads nowhere for writing", show_path(steps))),
            }
            ensure!(copy == replaced(doc, steps, &mark), "writing through the JSON pointer {ptr:?} of {} changes another node", show_path(steps));
        }
        elements(loc, steps, &pool)?;
        // owned ways to the location
        let owned = n.clone().to_location();
        ensure!(owned == *loc && NormalizedPath::from(n.clone()) == *loc, "conversion changes the location {loc}");
        let into: Vec<PathElement> = owned.into_iter().collect();
        ensure!(into.len() == steps.len() && into.iter().zip(steps).all(|(e, s)| same_step(e, s)), "into_iter of {loc} gives {into:?}");
    }
    Ok(())
}

fn replaced(doc: &Value, steps: &[Step], with: &Value) -> Value {
    match (steps.first(), doc) {
        (None, _) => with.clone(),
        (Some(Step::Key(k)), Value::Object(o)) => {
            Value::Object(o.iter().map(|(n, v)| (n.clone(), if n == k { replaced(v, &steps[1..], with) } else { v.clone() })).collect())
        }
        (Some(Step::Idx(k)), Value::Array(a)) => {
            Value::Array(a.iter().enumerate().map(|(n, v)| if n == *k { replaced(v, &steps[1..], with) } else { v.clone() }).collect())
        }
        _ => panic!("steps do not fit the document"),
    }
}

/// the elements of a location by every accessor
fn elements(loc: &NormalizedPath, steps: &[Step], pool: &[&PathElement]) -> Verdict {
    let at = || show_path(steps);
    ensure!(loc.len() == steps.len() && loc.is_empty() == steps.is_empty(), "len or is_empty of {} is {} {}", at(), loc.len(), loc.is_empty());
    let n = steps.len();
    let it: Vec<&PathElement> = loc.iter().collect();
    ensure!(it.len() == n && it.iter().zip(steps).all(|(e, s)| same_step(e, s)), "iterating {} gives {it:?}", at());
    ensure!(loc.iter().len() == n && loc.iter().rev().zip(steps.iter().rev()).all(|(e, s)| same_step(e, s)), "iterating {} backwards gives others", at());
    let same = |e: Option<&PathElement>, s: Option<&Step>| match (e, s) {
        (Some(e), Some(s)) => same_step(e, s),
        (None, None) => true,
        _ => false,
    };
    ensure!(same(loc.first(), steps.first()) && same(loc.last(), steps.last()), "first or last of {} are {:?} {:?}", at(), loc.first(), loc.last());
    let few: Vec<usize> = if n <= 6 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] };
    for &i in &few {
        ensure!(same(loc.get(i), steps.get(i)), "get({i}) of {} is {:?}", at(), loc.get(i));
        for &j in &few {
            let (g, w) = (loc.get(i..j), steps.get(i..j));
            ensure!(
                match (g, w) {
                    (Some(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(e, s)| same_step(e, s)),
                    (None, None) => true,
                    _ => false,
                },
                "get({i}..{j}) of {} is {g:?}",
                at()
            );
            let (g, w) = (loc.get(i..=j), steps.get(i..=j));
            ensure!(g.map(|g| g.len()) == w.map(|w| w.len()), "get({i}..={j}) of {} is {g:?}", at());
        }
        ensure!(loc.get(i..).map(|g| g.len()) == steps.get(i..).map(|g| g.len()), "get({i}..) of {} is wrong", at());
        ensure!(loc.get(..i).map(|g| g.len()) == steps.get(..i).map(|g| g.len()), "get(..{i}) of {} is wrong", at());
    }
    // kind, value and comparison; the last element alone, as the others belong to its ancestors
    if let (Some(e), Some(s)) = (loc.last(), steps.last()) {
        let ok = match s {
            Step::Key(k) => {
                e.is_name() && !e.is_index() && e.as_name() == Some(*k) && e.as_index().is_none() && *e == **k && *e == *k && *e == PathElement::from(&k.to_string())
                    && *e == PathElement::Name(k)
            }
            Step::Idx(i) => e.is_index() && !e.is_name() && e.as_index() == Some(*i) && e.as_name().is_none() && *e == *i && *e == PathElement::from(*i),
        };
        ensure!(ok, "the last element of {} tells its kind or value wrongly: {e:?}", at());
        let same_key = |t: &str| matches!(s, Step::Key(k) if *k == t);
        let same_idx = |j: usize| matches!(s, Step::Idx(i) if *i == j);
        for o in pool {
            match o {
                PathElement::Name(t) => {
                    ensure!((*e == **t) == same_key(t) && (*e == *t) == same_key(t), "{e:?} compared with {t:?} gives {}", *e == *t);
                    ensure!((e == *o) == same_key(t), "{e:?} compared with {o:?} gives {}", e == *o);
                    if let Ok(j) = t.parse::<usize>() {
                        ensure!((*e == j) == same_idx(j), "{e:?} compared with {j} gives {}", *e == j);
                    }
                }
                PathElement::Index(j) => {
                    ensure!((*e == *j) == same_idx(*j), "{e:?} compared with {j} gives {}", *e == *j);
                    ensure!((e == *o) == same_idx(*j), "{e:?} compared with {o:?} gives {}", e == *o);
                    let t = j.to_string();
                    ensure!((*e == *t.as_str()) == same_key(&t), "{e:?} compared with {t:?} gives {}", *e == *t.as_str());
                }
            }
        }
        for t in ["", "a", "0", "1", "'", "~", "/"] {
            ensure!((*e == *t) == same_key(t) && (*e == t) == same_key(t), "{e:?} compared with {t:?} gives {}", *e == t);
        }
        for j in [0usize, 1, 2, usize::MAX] {
            ensure!((*e == j) == same_idx(j), "{e:?} compared with {j} gives {}", *e == j);
        }
    }
    Ok(())
}

fn pointers(cx: &mut Ctx, d: &Value) {
    case(cx, "pointers", "", d, Value::Null, &mut |st| judge_pointers(d, st));
}

pub fn c16(thorough: bool) -> Vec<Phase> {
    location_phases(thorough, pointers)
}

// ---- C18 ----

/// what a list should contain
type Model<'d> = Vec<(String, *const Value)>;

fn model_of(l: &LocatedNodeList) -> Model<'static> {
    l.clone().all().iter().map(|n| (n.location().to_string(), n.node() as *const Value)).collect()
}

const OPS: [&str; 21] = [
    "next", "next_back", "nth 0", "nth 1", "nth 2", "nth_back 0", "nth_back 1", "find", "rfind", "position", "rposition", "any", "skip", "count", "last", "rev", "fold", "rfold", "step_by", "rev and fold", "collect",
];

/// one operation on an iterator and on its model; true if the iterator is used up by it
fn apply<I, T>(mut it: I, model: &mut VecDeque<usize>, op: usize, same: &dyn Fn(T, usize) -> bool) -> Result<Option<I>, String>
where
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator,
{
    let bad = |w: &str| Err(format!("{} {w}", OPS[op]));
    let check = |got: Option<T>, want: Option<usize>| match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => same(g, w),
        _ => false,
    };
    match op {
        0 => {
            if !check(it.next(), model.pop_front()) {
                return bad("gives another item");
            }
        }
        1 => {
            if !check(it.next_back(), model.pop_back()) {
                return bad("gives another item");
            }
        }
        2..=4 => {
            let k = op - 2;
            let mut w = None;
            for _ in 0..=k {
                w = model.pop_front();
            }
            if !check(it.nth(k), w) {
                return bad("gives another item");
            }
        }
        5 | 6 => {
            let k = op - 5;
            let mut w = None;
            for _ in 0..=k {
                w = model.pop_back();
            }
            if !check(it.nth_back(k), w) {
                return bad("gives another item");
            }
        }
        // the ones that go on until something holds: here, until the second item (from the end)
        7 => {
            let mut seen = 0;
            let got = it.find(|_| {
                seen += 1;
                seen == 2
            });
            model.pop_front();
            if !check(got, model.pop_front()) {
                return bad("gives another item");
            }
        }
        8 => {
            let mut seen = 0;
            let got = it.rfind(|_| {
                seen += 1;
                seen == 2
            });
            model.pop_back();
            if !check(got, model.pop_back()) {
                return bad("gives another item");
            }
        }
        9 => {
            let w = model.get(1).copied();
            let got = it.position(|g| w.is_some_and(|w| same(g, w)));
            // the nodes may be equal: the first that is the same ends the search
            let n = model.len();
            match got {
                Some(0 | 1) if n > 1 => {
                    model.drain(..=got.unwrap());
                }
                None if n < 2 => model.clear(),
                _ => return bad("gives another position"),
            }
        }
        10 => {
            let w = model.len().checked_sub(2).map(|i| model[i]);
            let got = it.rposition(|g| w.is_some_and(|w| same(g, w)));
            let n = model.len();
            match got {
                Some(i) if n > 1 && (i == n - 1 || i == n - 2) => model.truncate(i),
                None if n < 2 => model.clear(),
                _ => return bad("gives another position"),
            }
        }
        11 => {
            let mut i = 0;
            let all = it.all(|g| {
                i += 1;
                i <= model.len() && same(g, model[i - 1]) && i < 3
            });
            if all != (model.len() < 3) || i != model.len().min(3) {
                return bad("stops elsewhere");
            }
            model.drain(..i);
        }
        12 => {
            let got: Vec<T> = it.skip(2).collect();
            return if got.len() == model.len().saturating_sub(2) && got.into_iter().zip(model.iter().skip(2)).all(|(g, w)| same(g, *w)) { Ok(None) } else { bad("gives others") };
        }
        13 => return if it.count() == model.len() { Ok(None) } else { bad("gives another number") },
        14 => return if check(it.last(), model.back().copied()) { Ok(None) } else { bad("gives another item") },
        15 => {
            let got: Vec<T> = it.rev().collect();
            return if got.len() == model.len() && got.into_iter().zip(model.iter().rev()).all(|(g, w)| same(g, *w)) { Ok(None) } else { bad("gives others") };
        }
        16 => {
            let n = it.fold(0, |i, g| if i < model.len() && same(g, model[i]) { i + 1 } else { usize::MAX / 2 });
            return if n == model.len() { Ok(None) } else { bad("gives others") };
        }
        17 | 19 => {
            let back = |i: usize, g: T| if i < model.len() && same(g, model[model.len() - 1 - i]) { i + 1 } else { usize::MAX / 2 };
            let n = if op == 17 { it.rfold(0, back) } else { it.rev().fold(0, back) };
            return if n == model.len() { Ok(None) } else { bad("gives others") };
        }
        18 => {
            let got: Vec<T> = it.step_by(2).collect();
            return if got.len() == model.len().div_ceil(2) && got.into_iter().zip(model.iter().step_by(2)).all(|(g, w)| same(g, *w)) { Ok(None) } else { bad("gives others") };
        }
        _ => {
            let got: Vec<T> = it.collect();
            return if got.len() == model.len() && got.into_iter().zip(model.iter()).all(|(g, w)| same(g, *w)) { Ok(None) } else { bad("gives others") };
        }
    }
    Ok(Some(it))
}

/// all sequences of operations of the given depth on a fresh iterator each
fn all_sequences<I, T>(mk: &dyn Fn() -> I, n: usize, depth: usize, same: &dyn Fn(T, usize) -> bool, what: &str, st: &mut Stats) -> Verdict
where
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator,
{
    let mut seq: Vec<usize> = vec![];
    loop {
        // run the sequence
        let mut it = Some(mk());
        let mut model: VecDeque<usize> = (0..n).collect();
        st.traces += 1;
        for &op in seq.iter() {
            let Some(i) = it.take() else { break };
            let len = i.len();
            let hint = i.size_hint();
            if len != model.len() || hint != (model.len(), Some(model.len())) {
                return Err(format!("{what} of {n} after {:?}: len {len}, size_hint {hint:?}, {} left", show_ops(&seq), model.len()));
            }
            st.transitions += 1;
            st.states += 1;
            it = apply(i, &mut model, op, same).map_err(|e| format!("{what} of {n}, operations {:?}: {e}", show_ops(&seq)))?;
        }
        if let Some(i) = &it {
            let (len, hint) = (i.len(), i.size_hint());
            if len != model.len() || hint != (model.len(), Some(model.len())) {
                return Err(format!("{what} of {n} after {:?}: len {len}, size_hint {hint:?}, {} left", show_ops(&seq), model.len()));
            }
        }
        // the next sequence: extend it, or else advance its last operation
        if it.is_some() && seq.len() < depth {
            seq.push(0);
            continue;
        }
        loop {
            match seq.pop() {
                None => return Ok(()),
                Some(o) if o + 1 < OPS.len() => {
                    seq.push(o + 1);
                    break;
                }
                _ => {}
            }
        }
    }
}

fn show_ops(s: &[usize]) -> Vec<&'static str> {
    s.iter().map(|&i| OPS[i]).collect()
}

#[allow(deprecated)]
pub fn judge_views(q: &str, doc: &Value, depth: usize, st: &mut Stats) -> Verdict {
    let p = path_of(q)?;
    let located = p.query_located(doc);
    let plain = p.query(doc);
    views(q, doc, &plain, &located, depth, st)
}

#[allow(deprecated)]
fn views(q: &str, doc: &Value, plain: &NodeList, located: &LocatedNodeList, depth: usize, st: &mut Stats) -> Verdict {
    let m = model_of(located);
    let n = m.len();
    let _ = doc;
    let nodes: Vec<*const Value> = plain.clone().all().iter().map(|v| *v as *const Value).collect();
    ensure!(nodes.len() == n && nodes.iter().zip(&m).all(|(a, b)| *a == b.1), "{q:?} gives other nodes by query than by query_located");
    ensure!(plain.len() == n && located.len() == n, "len of the lists of {q:?} are {} and {}, of {n} nodes", plain.len(), located.len());
    ensure!(plain.is_empty() == (n == 0) && located.is_empty() == (n == 0), "is_empty of the lists of {q:?} of {n} nodes");
    let at = |v: Option<&Value>, i: Option<usize>| v.map(|v| v as *const Value) == i.and_then(|i| m.get(i)).map(|m| m.1);
    let lat = |v: Option<&LocatedNode>, i: Option<usize>| {
        v.map(|v| (v.location().to_string(), v.node() as *const Value)) == i.and_then(|i| m.get(i)).cloned()
    };
    let last = n.checked_sub(1);
    ensure!(at(plain.first(), Some(0)) && at(plain.last(), last), "first or last of the list of {q:?} ({n} nodes)");
    ensure!(lat(located.first(), Some(0)) && lat(located.last(), last), "first or last of the located list of {q:?} ({n} nodes)");
    for i in (0..n + 3).chain([usize::MAX]) {
        ensure!(at(plain.get(i), Some(i)), "get({i}) of the list of {q:?} ({n} nodes)");
        ensure!(lat(located.get(i), Some(i)), "get({i}) of the located list of {q:?} ({n} nodes)");
    }
    // at most one, exactly one
    match (plain.at_most_one(), n) {
        (Ok(None), 0) => {}
        (Ok(v), 1) if at(v, Some(0)) => {}
        (Err(e), k) if k > 1 && e.0 == k && e.to_string().contains(&format!(" {k} ")) => {}
        (r, _) => return Err(format!("at_most_one of the list of {q:?} ({n} nodes) is {r:?}")),
    }
    match (located.clone().at_most_one(), n) {
        (Ok(None), 0) => {}
        (Ok(Some(v)), 1) if lat(Some(&v), Some(0)) => {}
        (Err(e), k) if k > 1 && e.0 == k && e.to_string().contains(&format!(" {k} ")) => {}
        (r, _) => return Err(format!("at_most_one of the located list of {q:?} ({n} nodes) is {r:?}")),
    }
    let ex = |e: &serde_json_path::ExactlyOneError| match n {
        0 => e.is_empty() && !e.is_more_than_one() && e.as_more_than_one().is_none() && e.to_string().contains("empty"),
        1 => false,
        k => !e.is_empty() && e.is_more_than_one() && e.as_more_than_one() == Some(k) && e.to_string().contains(&format!(" {k} ")),
    };
    match plain.exactly_one() {
        Ok(v) if n == 1 && at(Some(v), Some(0)) => {}
        Err(e) if ex(&e) => {}
        r => return Err(format!("exactly_one of the list of {q:?} ({n} nodes) is {r:?}")),
    }
    match located.clone().exactly_one() {
        Ok(v) if n == 1 && lat(Some(&v), Some(0)) => {}
        Err(e) if ex(&e) => {}
        r => return Err(format!("exactly_one of the located list of {q:?} ({n} nodes) is {r:?}")),
    }
    ensure!(plain.clone().one().map(|v| v as *const Value) == (n == 1).then(|| m[0].1), "one of the list of {q:?} ({n} nodes)");
    // every iterator under every sequence of operations
    let ptr = |v: &Value, i: usize| v as *const Value == m[i].1;
    let lsame = |v: &LocatedNode, i: usize| v.node() as *const Value == m[i].1 && v.location().to_string() == m[i].0;
    all_sequences(&|| plain.iter(), n, depth, &|v: &&Value, i| ptr(v, i), "iter of a list", st)?;
    all_sequences(&|| plain.clone().into_iter(), n, depth, &|v: &Value, i| ptr(v, i), "into_iter of a list", st)?;
    all_sequences(&|| located.iter(), n, depth, &lsame, "iter of a located list", st)?;
    all_sequences(&|| located.clone().into_iter(), n, depth, &|v: LocatedNode, i| lsame(&v, i), "into_iter of a located list", st)?;
    all_sequences(&|| located.nodes(), n, depth, &|v: &Value, i| ptr(v, i), "nodes()", st)?;
    all_sequences(&|| located.locations(), n, depth, &|v: &NormalizedPath, i| v.to_string() == m[i].0, "locations()", st)?;
    // and after the end, again and again
    let (mut a, mut b) = (located.nodes(), located.locations());
    for _ in 0..n {
        a.next();
        b.next_back();
    }
    for _ in 0..3 {
        ensure!(a.next().is_none() && a.next_back().is_none() && b.next().is_none() && b.next_back().is_none(), "an iterator of {q:?} goes on after its end");
        ensure!(a.len() == 0 && b.len() == 0, "an iterator of {q:?} has a length after its end");
    }
    st.class(match n {
        0 => "empty list",
        1 => "one node",
        _ => "several nodes",
    });
    Ok(())
}

fn view(cx: &mut Ctx, q: &str, d: &Value, depth: usize) {
    case(cx, "views", q, d, json!(depth), &mut |st| judge_views(q, d, depth, st));
}

pub fn c18(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let max = if thorough { 7 } else { 5 };
        let depth = if thorough { 6 } else { 5 };
        ph.push(phase(
            "operation sequences",
            format!("lists of 0..={max} nodes of equal and of different values x all sequences of up to {depth} of {} operations, on each of 6 iterators; lengths checked after each step", OPS.len()),
            (max + 1) * 3,
            move |u, cx| {
                let n = u % (max + 1);
                // equal values, different values, the same node again and again
                match u / (max + 1) {
                    0 => view(cx, "$[*]", &Value::Array(vec![json!([]); n]), depth),
                    1 => view(cx, "$[*]", &Value::Array((0..n).map(|i| json!(i)).collect()), depth),
                    _ => {
                        let q = if n == 0 { "$[9]".to_string() } else { format!("$[{}]", vec!["'a'"; n].join(",")) };
                        view(cx, &q, &json!({"a": {"b": 1}}), depth);
                    }
                }
            },
        ));
    }
    {
        let max = if thorough { 1200 } else { 300 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 16)).collect();
        ph.push(phase("sizes", format!("lists of 0..={max} nodes, every view, operation sequences of up to 2; and of about the powers of two up to 2^16, of up to 1"), ns.len(), move |u, cx| {
            let n = ns[u];
            view(cx, "$[*]", &Value::Array((0..n).map(|i| json!(i)).collect()), if n > max { 1 } else { 2 });
            if n < 40 {
                view(cx, "$..*", &nest(n, &|i| Some(i.to_string()), json!(null)), 2);
            }
        }));
    }
    {
        let segs = Arc::new(segments());
        let ds = Arc::new(doc_space(if thorough { 4 } else { 3 }));
        ph.push(phase("results", format!("{0} segments, alone and in pairs, on {1} documents, operation sequences of up to 2", segs.len(), ds.len()), segs.len(), move |u, cx| {
            for d in ds.iter() {
                if u == 0 {
                    view(cx, "$", d, 2);
                }
                view(cx, &format!("${}", segs[u]), d, 2);
            }
            for s in segs.iter() {
                for d in ds.iter().rev().take(4) {
                    view(cx, &format!("${}{s}", segs[u]), d, 1);
                }
            }
        }));
    }
    ph
}

// ---- C19 ----

/// the order of locations: element by element, indices numerically, names by their characters
fn cmp_steps(a: &[Result<usize, &str>], b: &[Result<usize, &str>]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = match (x, y) {
            (Ok(i), Ok(j)) => i.cmp(j),
            (Err(s), Err(t)) => s.chars().cmp(t.chars()),
            _ => panic!("locations of different documents"),
        };
        if o.is_ne() {
            return o;
        }
    }
    a.len().cmp(&b.len())
}

/// deduplicate and compare with the sorted set of what went in
pub fn judge_dedup(what: &str, list: LocatedNodeList, st: &mut Stats) -> Verdict {
    let before = list.clone();
    let input = list.clone().all();
    let mut want: Vec<(Vec<Result<usize, &str>>, *const Value)> = vec![];
    for n in &input {
        let k = key_of(n.location());
        if !want.iter().any(|w| w.0 == k) {
            want.push((k, n.node() as *const Value));
        }
    }
    want.sort_by(|a, b| cmp_steps(&a.0, &b.0));
    st.states += input.len() as u64 + 1;
    st.transitions += want.len() as u64;
    st.traces += 2;
    let fits = |l: &LocatedNodeList| {
        l.len() == want.len() && l.iter().zip(&want).all(|(n, w)| key_of(n.location()) == w.0 && n.node() as *const Value == w.1)
    };
    let show = |l: &LocatedNodeList| l.iter().take(10).map(|n| n.location().to_string()).collect::<Vec<_>>().join(", ");
    let once = list.dedup();
    ensure!(fits(&once), "deduplicating {what} ({}) gives {}", show(&before), show(&once));
    let mut inplace = before.clone();
    inplace.dedup_in_place();
    ensure!(fits(&inplace), "deduplicating {what} ({}) in place gives {}", show(&before), show(&inplace));
    inplace.dedup_in_place();
    ensure!(fits(&inplace) && inplace == once && fits(&once.clone().dedup()), "deduplicating {what} twice differs from once");
    st.class(if want.len() == input.len() { "without repetition" } else { "with repetition" });
    Ok(())
}

/// a list made of the nodes with the given numbers
fn judge_sequence(doc: &Value, idx: &[usize], st: &mut Stats) -> Verdict {
    let p = path_of("$..*")?;
    let root = path_of("$")?.query_located(doc).all();
    let mut all = p.query_located(doc).all();
    all.extend(root);
    let v: Vec<LocatedNode> = idx.iter().map(|&i| all[i % all.len()].clone()).collect();
    judge_dedup("a list", v.into(), st)
}

pub fn c19(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        // every sequence of nodes of a document
        let ds: Arc<Vec<Value>> = Arc::new(vec![
            json!([1, [1, [1]], 1, 1]),
            json!({"a": {"a": 1, "b": 1}, "b": 1, "ab": {"": 1}}),
            json!([{"a": 1, "b": [1, 1]}, [1, {"a": 1}]]),
            json!({"0": [1, 1], "1": {"1": 1, "10": 1}, "10": 1}),
            json!([0, 1, 2, 3, 4, 5, 6]),
        ]);
        let k = if thorough { 7 } else { 5 };
        ph.push(phase("sequences of nodes", format!("{} documents x every sequence of up to {k} of their 8 or so nodes", ds.len()), ds.len() * 8, move |u, cx| {
            let d = &ds[u % ds.len()];
            let n = all_nodes(d).len();
            let first = u / ds.len();
            for l in 0..k {
                for i in 0..n.pow(l as u32) {
                    let mut t = vec![first];
                    t.extend(tuple(i, l, n));
                    if first < n {
                        case(cx, "sequence", "", d, json!(t), &mut |st| judge_sequence(d, &t, st));
                    }
                }
            }
        }));
    }
    {
        // long lists, where sorting takes other ways: every rotation, reversal and stride
        let max = if thorough { 300 } else { 90 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 12)).collect();
        ph.push(phase("long lists", format!("lists of 0..={max} nodes, and of about the powers of two up to 2^12: rotated, reversed, strided, repeated, ends swapped"), ns.len(), move |u, cx| {
            let n = ns[u];
            let d = json!({"a": (0..n).map(|i| if i % 5 == 4 { json!([i]) } else { json!(0) }).collect::<Vec<_>>(), "b": 0});
            let total = all_nodes(&d).len();
            let mut seqs: Vec<Vec<usize>> = vec![];
            for s in [1, 2, 3, 7, 10, 11, 19, 37, 53] {
                seqs.push((0..total).map(|i| i * s).collect());
                seqs.push((0..total).rev().map(|i| i * s).collect());
                seqs.push((0..total * 2).map(|i| i * s).collect());
                seqs.push((0..total).map(|i| i / s).collect());
                seqs.push((0..total).map(|i| i % s).collect());
                seqs.push((0..total).flat_map(|i| [i, total + i * s]).collect());
            }
            for r in (0..total).step_by(if n < 40 { 1 } else if n <= max { 9 } else { total / 4 }) {
                seqs.push((0..total).map(|i| i + r).collect());
                seqs.push((0..total).rev().map(|i| i + r).collect());
            }
            for t in seqs {
                case(cx, "sequence", "", &d, json!(t), &mut |st| judge_sequence(&d, &t, st));
            }
        }));
    }
    {
        // what differs comes late in the locations, or in the names
        let max = if thorough { 150 } else { 70 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 8)).collect();
        ph.push(phase("deep", format!("chains of depth 0..={max} and about 2^8 of arrays, objects and both in turn, twice beside one another, and names that begin with as many equal characters: all nodes, reversed, strided, repeated"), ns.len(), move |u, cx| {
            let n = ns[u];
            let end = json!([1, {"a": 1, "b": 1}, 1]);
            let name = |d: usize| Some(["a", "b", "k"][d % 3].to_string());
            let ds = [
                nest(n, &|_| None, end.clone()),
                nest(n, &name, end.clone()),
                nest(n, &|d| name(d).filter(|_| d % 2 == 0), json!({"a": end, "b": 1})),
                json!([nest(n, &|_| None, json!([1, 1])), nest(n, &|_| None, json!([1, 1]))]),
                json!({"a": nest(n, &name, json!({"a": 1, "": 1})), "b": nest(n, &name, json!({"a": 1}))}),
                named(&["", "a", "b", "é", "'", "aa"].map(|c| "a".repeat(n) + c)),
                named(&["", "a", "b", "é", "ê", "z"].map(|c| "é".repeat(n) + c)),
            ];
            for d in &ds {
                let total = all_nodes(d).len();
                let mut seqs: Vec<Vec<usize>> = vec![(0..total).chain((0..total).rev()).collect(), (0..total).flat_map(|i| [i, total - 1 - i]).collect()];
                for s in [1, 2, 3, 7] {
                    seqs.push((0..total * 2).map(|i| i * s).collect());
                    seqs.push((0..total * 2).map(|i| total - 1 - i * s % total).collect());
                }
                for t in seqs {
                    case(cx, "sequence", "", d, json!(t), &mut |st| judge_sequence(d, &t, st));
                }
            }
        }));
    }
    {
        let segs = Arc::new(segments());
        let ds = Arc::new(doc_space(if thorough { 5 } else { 4 }));
        ph.push(phase("results", format!("{} segments, alone, in pairs and repeated, on {} documents", segs.len(), ds.len()), segs.len(), move |u, cx| {
            let mut run = |q: String, ds: &[Value]| match JsonPath::parse(&q) {
                Ok(p) => {
                    for d in ds {
                        case(cx, "dedup", &q, d, Value::Null, &mut |st| judge_dedup(&q, p.query_located(d), st));
                    }
                }
                Err(_) => case(cx, "dedup", &q, &Value::Null, Value::Null, &mut |_| path_of(&q).map(|_| ())),
            };
            run(format!("${}", segs[u]), &ds);
            for s in segs.iter() {
                run(format!("${}{s}", segs[u]), &ds[ds.len() - 14..]);
                if s.starts_with("[") && segs[u].starts_with('[') {
                    let both = format!("[{},{}]", &segs[u][1..segs[u].len() - 1], &s[1..s.len() - 1]);
                    run(format!("${both}"), &ds[ds.len() - 14..]);
                    run(format!("$..{both}"), &ds[ds.len() - 14..]);
                }
            }
        }));
    }
    {
        // the order of names and of indices
        ph.push(phase("order", "objects of all odd names, in one document and nested; arrays of up to 130 elements", 6, move |u, cx| {
            let cs = odd_chars();
            let names: Vec<String> = cs.iter().flat_map(|c| [c.to_string(), format!("a{c}"), format!("{c}a")]).collect();
            let d = match u {
                0 => named(&names),
                1 => Value::Array((0..130).map(|i| json!([i, i])).collect()),
                2 => json!({"é": 1, "z": 2, "Z": 3, "\u{ffff}": 4, "\u{10000}": 5, "😀": 6, "": 7, "a": {"": 1}, "aa": 2, "a'": 3, "a\"": 4}),
                3 => Value::Object((0..130).map(|i| (i.to_string(), json!({"x": i}))).collect::<Map<_, _>>()),
                4 => json!({"a": {"b": 1}, "a.b": 1, "a']['b": 1, "a/b": 1, "ab": 1}),
                _ => json!([[[0, 1], 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 0, 0, 0, 0, 0, 0, 0, 0, 0, [0, 1], [0]]),
            };
            for q in ["$..*", "$[*,*]", "$..[*,*]", "$[::-1]", "$..[::-1,0]", "$..[?@,0]"] {
                case(cx, "dedup", q, &d, Value::Null, &mut |st| judge_dedup(q, path_of(q)?.query_located(&d), st));
            }
        }));
    }
    ph
}

// ---- C28 ----

/// JSON text, written here
fn text_of(v: &Value, out: &mut String) {
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text_of(v, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            for (i, (k, v)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                string_text(k, out);
                out.push(':');
                text_of(v, out);
            }
            out.push('}');
        }
        Value::String(s) => string_text(s, out),
        v => out.push_str(&v.to_string()),
    }
}

fn string_text(s: &str, out: &mut String) {
    out.push_str(&Value::String(s.into()).to_string());
}

pub fn judge_serial(q: &str, p: &JsonPath, doc: &Value, st: &mut Stats) -> Verdict {
    let all: BTreeMap<*const Value, Vec<Step>> = all_nodes(doc).into_iter().map(|(s, v)| (v as *const Value, s)).collect();
    let plain = p.query(doc);
    let located = p.query_located(doc);
    st.traces += 2;
    st.states += plain.len() as u64 + 1;
    let mut want = String::from("[");
    for (i, v) in plain.clone().all().into_iter().enumerate() {
        if i > 0 {
            want.push(',');
        }
        text_of(v, &mut want);
    }
    want.push(']');
    let got = serde_json::to_string(&plain).map_err(|e| e.to_string())?;
    ensure!(got == want, "the nodelist of {q:?} serializes as {got}, and is {want}");
    let got = serde_json::to_value(&plain).map_err(|e| e.to_string())?;
    ensure!(got.as_array().is_some_and(|a| a.iter().eq(plain.iter().copied())), "the nodelist of {q:?} becomes the value {got}, and is {want}");
    // the order of the members of an object is of no account
    let mut want = String::from("[");
    let mut swapped = String::from("[");
    let mut values = vec![];
    for (i, n) in located.iter().enumerate() {
        if i > 0 {
            want.push(',');
            swapped.push(',');
        }
        let steps = &all[&(n.node() as *const Value)];
        let path = canonical(steps);
        st.transitions += steps.len() as u64 + 1;
        // one node on its own
        let v = serde_json::to_value(n).map_err(|e| e.to_string())?;
        ensure!(v == json!({"loc": path, "node": n.node()}), "the node at {path} serializes as {v}");
        let l = serde_json::to_value(n.location()).map_err(|e| e.to_string())?;
        ensure!(l == json!(path), "the location {path} serializes as {l}");
        for (e, s) in n.location().iter().zip(steps) {
            let v = serde_json::to_value(e).map_err(|e| e.to_string())?;
            let t = serde_json::to_string(e).map_err(|e| e.to_string())?;
            let w = match s {
                Step::Key(k) => json!(k),
                Step::Idx(i) => json!(i),
            };
            ensure!(v == w && t == w.to_string(), "an element of {path} serializes as {v} or {t}, and is {w}");
        }
        values.push(v);
        let (mut loc, mut node) = (String::from("\"loc\":"), String::from("\"node\":"));
        string_text(&path, &mut loc);
        text_of(n.node(), &mut node);
        want.push_str(&format!("{{{loc},{node}}}"));
        swapped.push_str(&format!("{{{node},{loc}}}"));
    }
    want.push(']');
    swapped.push(']');
    let got = serde_json::to_string(&located).map_err(|e| e.to_string())?;
    ensure!(got == want || got == swapped, "the located list of {q:?} serializes as {got}, and is {want}");
    let got = serde_json::to_value(&located).map_err(|e| e.to_string())?;
    ensure!(got == Value::Array(values), "the located list of {q:?} becomes the value {got}, and is {want}");
    st.class(if plain.is_empty() { "no node" } else { "nodes" });
    Ok(())
}

fn serial(cx: &mut Ctx, q: &str, ds: &[Value]) {
    match JsonPath::parse(q) {
        Ok(p) => {
            for d in ds {
                case(cx, "serial", q, d, Value::Null, &mut |st| judge_serial(q, &p, d, st));
            }
        }
        Err(_) => case(cx, "serial", q, &Value::Null, Value::Null, &mut |_| path_of(q).map(|_| ())),
    }
}

fn serial_doc(cx: &mut Ctx, d: &Value) {
    for q in ["$", "$..*", "$[*]", "$..[*,0]"] {
        serial(cx, q, std::slice::from_ref(d));
    }
}

pub fn c28(thorough: bool) -> Vec<Phase> {
    let mut ph = location_phases(thorough, serial_doc);
    let segs = Arc::new(segments());
    let n = segs.len();
    let ds = Arc::new(doc_space(if thorough { 5 } else { 4 }));
    ph.push(phase("results", format!("{n} segments, alone and in pairs, on {} documents", ds.len()), n, move |u, cx| {
        serial(cx, &format!("${}", segs[u]), &ds);
        for s in segs.iter() {
            serial(cx, &format!("${}{s}", segs[u]), &ds[ds.len() - if thorough { 60 } else { 14 }..]);
        }
    }));
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    let (q, d) = (c.q.as_str(), &c.doc);
    match c.kind.as_str() {
        "pair" => judge_pair(q, &path_of(q)?, d, st),
        "paths" => judge_paths(d, st),
        "pointers" => judge_pointers(d, st),
        "views" => judge_views(q, d, c.x.as_u64().unwrap() as usize, st),
        "sequence" => {
            let idx: Vec<usize> = serde_json::from_value(c.x.clone()).unwrap();
            judge_sequence(d, &idx, st)
        }
        "dedup" => judge_dedup(q, path_of(q)?.query_located(d), st),
        "serial" => judge_serial(q, &path_of(q)?, d, st),
        "entry" => crate::props::entry::judge_entry(q, st),
        "ext" => {
            let p = path_of(q)?;
            let (a, b) = (d.json_path(&p).all(), p.query(d).all());
            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| std::ptr::eq(*a, *b)), "json_path of {q:?} differs from query");
            Ok(())
        }
        k => panic!("unknown case {k}"),
    }
}
