//! C13 nothing panics, hangs or aborts; C17 queries survive being displayed and serialized.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{docs, kinds, nest, quote, syntax_strings, tuple, SYNTAX};
use crate::judge::model;
use crate::props::grammar;
use crate::refparse;
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::collections::BTreeSet;
use std::sync::{Arc, LazyLock};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

static DOCS: LazyLock<Vec<Value>> = LazyLock::new(|| {
    let mut v = vec![
        json!({"a": [1, {"a": 1, "b": 2}, [1, 2, 3]], "b": {"a": {"a": 1}, "b": [true, null]}, "1": "a", "$": 1, "true": true, "": {"": [[]]}}),
        json!([{"a": 1, "b": "a"}, {"a": {"b": 1}}, [1, [2, "a"]], "a", null, true, 1.5, {"b": u64::MAX}, -9e300, "é😀", i64::MIN]),
    ];
    v.extend(kinds());
    v
});

// ---- C13 ----

/// everything one can do with a string and what becomes of it
pub fn judge_any(q: &str, st: &mut Stats) -> Verdict {
    judge_any_on(q, &DOCS, st)
}

fn judge_any_on(q: &str, docs: &[Value], st: &mut Stats) -> Verdict {
    st.states += q.len() as u64 + 1;
    st.transitions += q.len() as u64;
    st.traces += 1;
    match JsonPath::parse(q) {
        Ok(p) => {
            st.class("accepted");
            let text = p.to_string();
            ensure!(!text.is_empty(), "{q:?} displays as nothing");
            let _ = format!("{p:?}");
            let c = p.clone();
            ensure!(c == p, "a clone of {q:?} is not equal to it");
            for d in docs {
                let a = p.query(d);
                let b = p.query_located(d);
                let _ = (a.len(), format!("{a:?}").len(), serde_json::to_string(&a).map(|s| s.len()).unwrap_or(0));
                for n in b.iter() {
                    let _ = (n.location().to_string(), n.location().to_json_pointer(), format!("{n:?}"));
                }
                let _ = b.dedup().len();
                st.traces += 2;
            }
        }
        Err(e) => {
            st.class("rejected");
            let (pos, msg, shown) = (e.position(), e.message().to_string(), e.to_string());
            // counted from 1; one beyond the end where something is missing
            ensure!(pos >= 1 && pos <= q.len() + 1, "the error for {q:?} is at position {pos}, outside of it");
            ensure!(q.is_char_boundary(pos - 1), "the error for {q:?} is at position {pos}, within a character");
            ensure!(!msg.trim().is_empty(), "the error for {q:?} has no message");
            ensure!(shown.contains(&msg) && shown.contains(&pos.to_string()), "the error for {q:?} displays as {shown:?}, its position is {pos} and its message {msg:?}");
            let _ = format!("{e:?}");
        }
    }
    Ok(())
}

fn any(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("any", q), &mut |st| judge_any(q, st));
}

/// shapes that nest: what comes before, between and after, repeated
pub const NESTS: &[(&str, &str, &str, &str, &str)] = &[
    ("parentheses", "$[?", "(", "@.a", ")"),
    ("negated parentheses", "$[?", "!(", "@.a", ")"),
    ("spaced parentheses", "$[? ", "( ", "@.a==1", " )"),
    ("disjunctions", "$[?", "(@.b||", "@.a", ")"),
    ("filters", "$", "[?@", ".a", "]"),
    ("descendant filters", "$", "..[?@", ".a", "]"),
    ("compared filters", "$", "[?1==1&&@", ".a", "]"),
    ("functions", "$[?1==", "x_v_v(", "@", ")"),
    ("standard functions", "$[?1==", "length(", "@", ")"),
    ("logical functions", "$[?", "x_l_l(", "@", ")"),
    ("negated functions", "$[?", "!x_l_l(", "@.a==1", ")"),
    ("nodes functions", "$[?", "x_n_n(", "@.*", ")"),
    ("second arguments", "$[?1==", "x_vv_v(1,", "@", ")"),
    ("filters in functions", "$[?", "x_n_l(@[?", "@.a", "])"),
    ("parentheses in functions", "$[?", "x_l_l((", "@", "))"),
    ("unclosed parentheses", "$[?", "(", "", ""),
    ("unclosed filters", "$", "[?@", "", ""),
    ("unclosed functions", "$[?1==", "x_v_v(", "", ""),
    ("closing parentheses", "$[?@", ")", "", "]"),
    ("negations", "$[?", "!", "@.a", ""),
    ("brackets", "$", "[", "0", "]"),
];

pub fn nested(i: usize, depth: usize) -> String {
    let (_, pre, open, mid, close) = NESTS[i];
    let post = if pre.starts_with("$[?") && NESTS[i].0 != "closing parentheses" { "]" } else { "" };
    format!("{pre}{}{mid}{}{post}", open.repeat(depth), close.repeat(depth))
}

fn char_alphabet() -> Vec<char> {
    "$@.[]*,:?!()&|=<>'\"\\-0159aeu_ \n\u{0}é😀".chars().collect()
}

pub fn c13(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let base = Arc::new(grammar::base());
    {
        let cs = char_alphabet();
        let n = cs.len();
        let k = if thorough { 4 } else { 3 };
        ph.push(phase("short strings", format!("all strings of up to {k} of {n} characters, alone and in 12 contexts"), n * n, move |u, cx| {
            let ab: String = [cs[u % n], cs[u / n]].iter().collect();
            let ctx = [("", ""), ("$", ""), ("$[", ""), ("$[", "]"), ("$.", ""), ("$..", ""), ("$['", "']"), ("$[\"", ""), ("$[?", "]"), ("$[?@", ""), ("$[?@.a==", "]"), ("$[?length(", ")==1]"), ("$[?x_l_l(", ")]")];
            if u < n {
                for (a, b) in ctx {
                    any(cx, &format!("{a}{}{b}", cs[u]));
                    any(cx, &format!("{a}{b}"));
                }
            }
            for l in 0..=k - 2 {
                for i in 0..n.pow(l as u32) {
                    let t: String = tuple(i, l, n).iter().map(|&i| cs[i]).collect();
                    for (a, b) in ctx {
                        any(cx, &format!("{a}{ab}{t}{b}"));
                    }
                }
            }
        }));
    }
    {
        let base = base.clone();
        let chars = grammar::edit_chars(thorough);
        ph.push(phase("single edits", format!("{} queries x every beginning, ending, deletion, insertion and replacement of one of {} characters", base.len(), chars.len()), base.len(), move |u, cx| {
            let q: Vec<char> = base[u].chars().collect();
            let mut s = BTreeSet::new();
            for i in 0..=q.len() {
                s.insert(q[..i].iter().collect::<String>());
                s.insert(q[i..].iter().collect());
                for c in &chars {
                    s.insert(q[..i].iter().chain([c]).chain(&q[i..]).collect());
                    if i < q.len() {
                        s.insert(q[..i].iter().chain([c]).chain(&q[i + 1..]).collect());
                    }
                }
            }
            for t in s {
                any(cx, &t);
            }
        }));
    }
    {
        let base: Arc<Vec<String>> = Arc::new(base.iter().filter(|b| b.chars().count() <= if thorough { 24 } else { 12 }).cloned().collect());
        let chars: Vec<char> = "$.['\\u\"?@(=]&1e-é\u{0} ".chars().collect();
        ph.push(phase("double edits", format!("{} short queries x every two replacements or insertions out of {} characters", base.len(), chars.len()), base.len(), move |u, cx| {
            let q: Vec<char> = base[u].chars().collect();
            for i in 0..=q.len() {
                for j in i..=q.len() {
                    for &a in &chars {
                        for &b in &chars {
                            let t: String = q[..i].iter().chain([&a]).chain(&q[i..j]).chain([&b]).chain(&q[j..]).collect();
                            any(cx, &t);
                            if i < j && j < q.len() {
                                let t: String = q[..i].iter().chain([&a]).chain(&q[i + 1..j]).chain([&b]).chain(&q[j + 1..]).collect();
                                any(cx, &t);
                            }
                        }
                    }
                }
            }
        }));
    }
    {
        ph.push(phase("every character", "every Unicode scalar value in 15 places", 0x110, move |u, cx| {
            for lo in 0..0x1000u32 {
                let cp = (u as u32) << 12 | lo;
                if !thorough && cp > 0x3000 && cp % 31 != 0 && cp & 0xff < 0xfe {
                    continue;
                }
                let Some(c) = char::from_u32(cp) else { continue };
                for q in [
                    format!("{c}"), format!("${c}"), format!("$.{c}"), format!("$.a{c}"), format!("$..{c}"), format!("$[{c}]"), format!("$['{c}']"), format!("$[\"{c}"), format!("$['\\{c}']"), format!("$['\\u{c}"), format!("$['\\u00{c}1']"),
                    format!("$['\\ud83d\\u{c}"), format!("$[?{c}]"), format!("$[?@.a=='{c}']"), format!("$[?@.a{c}"),
                ] {
                    any(cx, &q);
                }
            }
        }));
    }
    {
        // multi-byte characters right before, at and after the place of an error
        let base = base.clone();
        let wide = ["é", "€", "😀", "\u{301}", "\u{feff}", "\u{10ffff}", "\u{80}", "\u{7f}"];
        ph.push(phase("wide characters", format!("{} queries x {} multi-byte characters at every position, once and twice, followed by the rest or cut off", base.len(), wide.len()), base.len(), move |u, cx| {
            let q: Vec<char> = base[u].chars().collect();
            for i in 0..=q.len() {
                let (a, b): (String, String) = (q[..i].iter().collect(), q[i..].iter().collect());
                for w in wide {
                    for t in [format!("{a}{w}{b}"), format!("{a}{w}"), format!("{a}{w}{w}{b}"), format!("{w}{a}{w}"), format!("{a}'{w}"), format!("{a}\"{w}{b}")] {
                        any(cx, &t);
                    }
                }
            }
        }));
    }
    {
        // integers and numbers of every length, and what evaluation does with them
        let mut ns: Vec<String> = vec![];
        for e in 0..=70u32 {
            for k in -2i128..=2 {
                let v = (1i128 << e) + k;
                ns.push(v.to_string());
                ns.push((-v).to_string());
            }
        }
        for d in [20, 40, 100, 1000] {
            ns.push("9".repeat(d));
            ns.push(format!("-{}", "9".repeat(d)));
            ns.push(format!("0.{}", "9".repeat(d)));
            ns.push(format!("1e{}", "9".repeat(d)));
            ns.push(format!("1e-{}", "9".repeat(d)));
            ns.push(format!("{}e-{}", "9".repeat(d), d));
        }
        for e in [0, 1, 15, 16, 17, 18, 19, 20, 100, 300, 307, 308, 309, 323, 324, 325, 1000, 65535, 65536, 99999999] {
            for m in ["1", "9", "1.7976931348623157", "2.2250738585072014", "5", "0", "-0", "1.5"] {
                ns.push(format!("{m}e{e}"));
                ns.push(format!("{m}E-{e}"));
            }
        }
        ns.sort();
        ns.dedup();
        let ns = Arc::new(ns);
        let few: Arc<Vec<String>> = Arc::new(ns.iter().filter(|n| n.len() < 20 && !n.contains('e') && !n.contains('E')).step_by(5).cloned().chain([(1i64 << 53) - 1, -(1 << 53) + 1, 1 - (1 << 62)].map(|v| v.to_string())).collect());
        ph.push(phase("numbers", format!("{} numbers in 14 positions, {} of them as all three parts of slices", ns.len(), few.len()), ns.len(), move |u, cx| {
            let n = &ns[u];
            for q in [
                format!("$[{n}]"), format!("$[{n}:]"), format!("$[:{n}]"), format!("$[::{n}]"), format!("$[?@=={n}]"), format!("$[?@<{n}]"), format!("$[?{n}>=@]"), format!("$[?@[{n}]]"), format!("$[?@[{n}]==1]"), format!("$..[{n}]"),
                format!("$..[{n}:{n}:{n}]"), format!("$[?x_v_v({n})==@]"), format!("$[?length({n})==1]"), format!("$[?@[{n}:]]"),
            ] {
                any(cx, &q);
            }
            if few.contains(n) {
                for a in few.iter() {
                    for b in few.iter() {
                        any(cx, &format!("$..[{n}:{a}:{b}]"));
                    }
                }
            }
        }));
    }
    {
        // regular expressions: valid, invalid, and costly ones
        let atoms = ["a", ".", "[a-c]", "[^a]", "(a|b)", "\\\\.", "\\\\p{L}", "\\\\P{Lu}", "a*", "a{2,3}", "(a*)*", "(", ")", "[", "]", "{", "}", "{2", "*", "+", "?", "|", "\\\\", "\\\\x", "^", "$", "é", "a{999}", "(a{99}){99}", "[b-a]", "(?i)", "\\\\d", "\\n"];
        let n = atoms.len();
        let k = if thorough { 3 } else { 2 };
        ph.push(phase("regular expressions", format!("all sequences of up to {k} of {n} pieces as pattern and as text"), n, move |u, cx| {
            for l in 0..k {
                for i in 0..n.pow(l as u32) {
                    let t: String = std::iter::once(u).chain(tuple(i, l, n)).map(|i| atoms[i]).collect();
                    for q in [format!("$..[?match(@,\"{t}\")]"), format!("$..[?search(@,'{t}')]"), format!("$[?match('{t}','{t}')]")] {
                        any(cx, &q);
                    }
                }
            }
            // from the document
            let d = json!([[atoms[u], atoms[u]], {"a": "aé\n", "b": atoms[u]}]);
            cx.case(&|| Case::new("any", "$[?match(@.a,@.b)||search(@[0],@[1])]").doc(&d), &mut |st| judge_any_on("$[?match(@.a,@.b)||search(@[0],@[1])]", std::slice::from_ref(&d), st));
        }));
    }
    {
        let max = if thorough { 3000 } else { 600 };
        let ns: Vec<usize> = (0..=max / 4).chain((max / 4 + 1..=max).filter(|n| n % 25 == 0)).chain(crate::gen::powers(1 << 16)).collect();
        ph.push(phase("length", format!("every repeatable construct, each length 0..={} and some up to {max}, and about the powers of two up to 2^16", max / 4), ns.len(), move |u, cx| {
            let n = ns[u];
            for (pre, unit, post) in [
                ("$", ".a", ""), ("$", "[0]", ""), ("$", "['a']", ""), ("$.", "a", ""), ("$['", "é", "']"), ("$['", "\\u0041", "']"), ("$['", "\\ud83d\\ude00", ""), ("$[0", ",0", "]"), ("$[0", ",?@.a", "]"), ("$[?@", ".a", "]"), ("$[?@", "[0]", "==1]"), ("$[?@.a", "&&@.a", "]"),
                ("$[?@.a", "||@.a", "]"), ("$[?@.a==1", "&&1==1", "]"), ("$", " ", ".a"), ("$[", " ", "0]"), ("$[?@.a==", "1", "]"), ("$[?@.a==0.", "1", "]"), ("$[?@.a==1e", "1", "]"), ("$[?@.a==", "-", "1]"), ("$[", "1", "]"), ("", "$", ""), ("", "é", ""), ("$", ".", "a"), ("$[?", "!", "@]"),
                ("$[?x_v_v(", "1,", "1)==1]"), ("$[?", "a", "(@)]"), ("$[", "]", ""), ("$[?@.a", "=", "1]"), ("$[?", " ", "@]"), ("$['", "'", "']"), ("$[\"", "\\", "\"]"), ("$[?@.a", "[1:2]", "]"), ("$", "[*]", ""), ("$[:", ":", "]"),
            ] {
                any(cx, &format!("{pre}{}{post}", unit.repeat(n)));
            }
            if n <= 60 {
                any(cx, &format!("$.a{}", "..a".repeat(n)));
                any(cx, &format!("$.a{}", "..[0]".repeat(n)));
            }
        }));
    }
    {
        // nesting within what a thread of ordinary size can hold
        let max = if thorough { 200 } else { 100 };
        ph.push(phase("nesting", format!("{} nested shapes, every depth 0..={max}, on a stack of 2 MB", NESTS.len()), NESTS.len(), move |u, cx| {
            for d in 0..=max {
                let q = nested(u, d);
                cx.case(&|| Case::new("small stack", &q), &mut |st| judge_small_stack(&q, st));
            }
        }));
    }
    {
        let max = if thorough { 400 } else { 128 };
        ph.push(phase("deep documents", format!("documents of every depth 0..={max}, on a stack of 2 MB"), max + 1, move |n, cx| {
            for obj in [false, true] {
                let d = nest(n, &|i| (obj && i % 2 == 0).then(|| "a".to_string()), json!(1));
                for q in ["$..*", "$..a", "$..[0]", "$..[?@==@]", "$..[?@..a]", "$[?@==$]", "$[?count(@..*)>3]", "$..[::-1]"] {
                    cx.case(&|| Case::new("small stack", q).doc(&d), &mut |st| judge_small_stack_on(q, &d, st));
                }
            }
        }));
    }
    {
        let ds = Arc::new(docs(if thorough { 5 } else { 4 }, &["a", "b"], &[json!(1), json!("a"), json!(null)]));
        let segs = Arc::new(crate::props::nodes::segments());
        ph.push(phase("evaluation", format!("{} segments, alone and in pairs, on {} documents", segs.len(), ds.len()), segs.len(), move |u, cx| {
            for s in std::iter::once("").chain(segs.iter().map(|s| s.as_str())) {
                let q = format!("${}{s}", segs[u]);
                let ds: &[Value] = if s.is_empty() { &ds } else { &ds[ds.len() - 30..] };
                cx.case(&|| Case::new("any", &q).doc(&json!(ds)), &mut |st| judge_any_on(&q, ds, st));
            }
        }));
    }
    ph
}

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).unwrap().join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

fn judge_small_stack(q: &str, st: &mut Stats) -> Verdict {
    small_stack(|| caught(st, &mut |st| judge_any_on(q, &DOCS[..2], st)))
}

fn judge_small_stack_on(q: &str, d: &Value, st: &mut Stats) -> Verdict {
    small_stack(|| caught(st, &mut |st| judge_any_on(q, std::slice::from_ref(d), st)))
}

/// a panic on the other thread, as a verdict
fn caught(st: &mut Stats, f: &mut dyn FnMut(&mut Stats) -> Verdict) -> Verdict {
    use crate::engine::{judge, Judged};
    match judge(f, st) {
        Judged::Ok => Ok(()),
        Judged::Violation(m) => Err(m),
        Judged::Harness(m) => panic!("{m}"),
    }
}

// ---- C17 ----

/// the known ways in which a display differs from one that survives
#[derive(Clone, Copy, Default, PartialEq)]
struct Listed {
    strings: bool,
    negation: bool,
    dots: bool,
    numbers: bool,
}

static DISPLAY: LazyLock<Listed> = LazyLock::new(|| {
    let mut l = Listed::default();
    for id in std::env::var("MC_KNOWN").unwrap_or_default().split(',') {
        match id {
            "display-unescaped" => l.strings = true,
            "display-lost-negation" => l.negation = true,
            "display-third-dot" => l.dots = true,
            "display-number-drift" => l.numbers = true,
            _ => {}
        }
    }
    l
});

fn round_trip(q: &str, p: &JsonPath, text: &str) -> Verdict {
    let back = JsonPath::parse(text).map_err(|e| format!("{q:?} displays as {text:?}, which is rejected: {e}"))?;
    ensure!(back == *p, "{q:?} displays as {text:?}, which is another query: {back:?} instead of {p:?}");
    ensure!(back.to_string() == text, "{q:?} displays as {text:?}, and that as {:?}", back.to_string());
    Ok(())
}

/// the literals of a valid query: where they are, and what they denote
fn literals(q: &str) -> Vec<(std::ops::Range<usize>, String)> {
    let mut v = vec![];
    let b = q.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\'' || b[i] == b'"' {
            let mut j = i + 1;
            while b[j] != b[i] {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            // as a query of its own, the reference parser decodes it
            let text = format!("$[{}]", &q[i..=j]);
            if let Some(r) = refparse::parse(&text).query() {
                if let crate::ast::Sel::Name(n) = &r.segs[0].sels[0] {
                    v.push((i..j + 1, n.clone()));
                }
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    v
}

/// the number literals of a valid query whose text, as the JSON library writes it, the JSON library
/// reads as another number: where they are, and that text
fn drifting(q: &str) -> Vec<(std::ops::Range<usize>, String)> {
    let lits = literals(q);
    let b = q.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if let Some((r, _)) = lits.iter().find(|(r, _)| r.start == i) {
            i = r.end;
        } else if b[i] == b'-' || b[i].is_ascii_digit() {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b".eE".contains(&b[j]) || (b"+-".contains(&b[j]) && b"eE".contains(&b[j - 1]))) {
                j += 1;
            }
            if let Ok(n) = serde_json::from_str::<serde_json::Number>(&q[i..j]) {
                let t = n.to_string();
                if serde_json::from_str::<serde_json::Number>(&t).ok() != Some(n) {
                    v.push((i..j, t));
                }
            }
            i = j;
        } else if b[i].is_ascii_alphabetic() || b[i] == b'_' || b[i] >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    v
}

/// without the negations of function calls
fn without_negated_calls(q: &str) -> String {
    let lits = literals(q);
    let b = q.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if let Some((r, _)) = lits.iter().find(|(r, _)| r.start == i) {
            out.push_str(&q[r.clone()]);
            i = r.end;
            continue;
        }
        if b[i] == b'!' {
            let mut j = i + 1;
            while j < b.len() && b" \t\r\n".contains(&b[j]) {
                j += 1;
            }
            let start = j;
            while j < b.len() && (b[j].is_ascii_lowercase() || b[j].is_ascii_digit() || b[j] == b'_') {
                j += 1;
            }
            if j > start && j < b.len() && b[j] == b'(' {
                i = start;
                continue;
            }
        }
        let c = q[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

pub fn judge_display(q: &str, st: &mut Stats) -> Verdict {
    let Ok(p) = JsonPath::parse(q) else {
        st.class("rejected");
        return Ok(());
    };
    let text = p.to_string();
    st.traces += 1;
    st.states += q.len() as u64 + 1;
    st.transitions += text.len() as u64;
    // serialization is the display, whatever that is
    let js = serde_json::to_string(&p).map_err(|e| format!("{q:?} does not serialize: {e}"))?;
    ensure!(js == Value::String(text.clone()).to_string(), "{q:?} displays as {text:?}, but serializes as {js}");
    let v = serde_json::to_value(&p).map_err(|e| format!("{q:?} does not serialize: {e}"))?;
    ensure!(v == json!(text), "{q:?} displays as {text:?}, but becomes the value {v}");
    ensure!(format!("{p}") == text && format!("{}", p.clone()) == text, "{q:?} displays differently each time");
    let Err(msg) = round_trip(q, &p, &text) else {
        for (name, r) in [("from_str", serde_json::from_str::<JsonPath>(&js)), ("from_value", serde_json::from_value(v))] {
            match r {
                Ok(b) => {
                    ensure!(b == p, "{q:?} serializes as {js}, which {name} makes another query");
                    for d in &DOCS[..2] {
                        let (a, b) = (p.query(d).all(), b.query(d).all());
                        ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| std::ptr::eq(*a, *b)), "{q:?} selects other nodes after {name}");
                    }
                }
                Err(e) => return Err(format!("{q:?} serializes as {js}, which {name} rejects: {e}")),
            }
        }
        st.class("survives");
        return Ok(());
    };
    // is it exactly what the known findings do?
    let l = *DISPLAY;
    let mut used = Listed::default();
    let mut plain = q.to_string();
    let mut subst = vec![];
    if l.strings {
        for (k, (r, s)) in literals(q).into_iter().enumerate().rev() {
            if s.chars().any(|c| c == '\'' || c == '\\' || (c as u32) < 0x20) {
                plain.replace_range(r, &format!("'zq{k}qz'"));
                subst.push((format!("'zq{k}qz'"), format!("'{s}'")));
                used.strings = true;
            }
        }
    }
    if l.numbers {
        for (k, (r, v)) in drifting(&plain).into_iter().enumerate().rev() {
            plain.replace_range(r, &format!("7654{k}4567"));
            subst.push((format!("7654{k}4567"), v));
            used.numbers = true;
        }
    }
    if l.negation {
        let w = without_negated_calls(&plain);
        used.negation = w != plain;
        plain = w;
    }
    let Ok(p2) = JsonPath::parse(&plain) else { return Err(msg) };
    let shown = p2.to_string();
    let mut fixed = shown.clone();
    if l.dots {
        fixed = shown.replace("...", "..");
        used.dots = fixed != shown;
    }
    if used == Listed::default() {
        return Err(msg);
    }
    let b2 = JsonPath::parse(&fixed).map_err(|_| msg.clone())?;
    ensure!(b2 == p2 && b2.to_string() == shown, "{msg}");
    let mut expected = shown;
    for (a, b) in subst {
        expected = expected.replace(&a, &b);
    }
    ensure!(expected == text, "{msg}");
    if used.strings {
        st.class("display-unescaped");
    }
    if used.negation {
        st.class("display-lost-negation");
    }
    if used.dots {
        st.class("display-third-dot");
    }
    if used.numbers {
        st.class("display-number-drift");
    }
    Ok(())
}

fn display(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("display", q), &mut |st| judge_display(q, st));
}

/// equal queries select the same nodes
fn judge_equal(a: &str, b: &str, docs: &[Value], st: &mut Stats) -> Verdict {
    let (Ok(p), Ok(q)) = (JsonPath::parse(a), JsonPath::parse(b)) else { return Ok(()) };
    st.states += 1;
    ensure!((p == q) == (q == p), "{a:?} and {b:?} are equal one way only");
    ensure!((p == q) != (p != q), "{a:?} and {b:?} are both equal and unequal");
    if p != q {
        st.class("unequal");
        return Ok(());
    }
    st.class("equal");
    let (ma, mb) = (refparse::parse(a), refparse::parse(b));
    let (Some(ma), Some(mb)) = (ma.query(), mb.query()) else { return Ok(()) };
    if ma == mb {
        return Ok(());
    }
    for d in docs {
        st.traces += 1;
        st.transitions += 1;
        let ra: Vec<*const Value> = model(ma, d, st).into_iter().map(|n| n.1 as *const Value).collect();
        let rb: Vec<*const Value> = model(mb, d, st).into_iter().map(|n| n.1 as *const Value).collect();
        ensure!(ra == rb, "{a:?} and {b:?} are equal, but on {d} they mean different nodes");
    }
    Ok(())
}

/// queries that differ in small ways
fn kindred() -> Vec<String> {
    let mut v = vec![];
    let ops = ["==", "!=", "<", "<=", ">", ">="];
    let operands = ["@.a", "@.b", "@['a']", "$.a", "@[0]", "@[1]", "@[-1]", "@", "$", "1", "1.0", "1e0", "-1", "2", "'a'", "\"a\"", "'b'", "'1'", "true", "false", "null", "length(@.a)", "length(@.b)", "count(@.a)", "count(@.*)", "x_v_v(1)", "x_v_v(@)", "x__v()"];
    for a in operands {
        for b in operands {
            for o in ops {
                v.push(format!("$[?{a}{o}{b}]"));
            }
        }
    }
    for s in crate::props::nodes::segments() {
        for t in ["", ".a", "..a", "[0]", "[*]"] {
            v.push(format!("${s}{t}"));
        }
        v.push(format!("$[?@{s}]"));
        v.push(format!("$[?$ {s}]"));
        v.push(format!("$[?!@{s}]"));
        v.push(format!("$[?count(@{s})==1]"));
        v.push(format!("$[?x_n_l(@{s})]"));
        v.push(format!("$[?!x_n_l(@{s})]"));
        v.push(format!("$[?x_n_n(@{s})]"));
        v.push(format!("$[?x_l_l(@{s})]"));
        v.push(format!("$[?x_l_l(!@{s})]"));
    }
    for x in ["@.a", "@.b", "@.a==1", "x__l()", "(@.a)"] {
        for y in ["@.a", "@.b", "!@.a", "@.b!=1", "x_l_l(@.a)"] {
            for f in ["$[?X&&Y]", "$[?X||Y]", "$[?!X&&Y]", "$[?X||!Y]", "$[?(X||Y)]", "$[?(X&&Y)]", "$[?!(X||Y)]", "$[?!(X&&Y)]", "$[?X,?Y]", "$[?X&&(Y||X)]", "$[?X&&Y||X]", "$[?(X||Y)&&X]", "$[?X||Y&&X]", "$[?x_ll_l(X,Y)]", "$[?x_l_l(X&&Y)]", "$[?x_l_l(X||Y)]"] {
                let y = if f.contains("!Y") { y.trim_start_matches('!') } else { y };
                v.push(f.replace('X', x).replace('Y', y).replace("!@.a==1", "!(@.a==1)").replace("!@.b!=1", "!(@.b!=1)"));
            }
        }
    }
    for s in ["", "0", "1", "-1", "2"] {
        for e in ["", "0", "1", "-1", "3"] {
            for t in ["", ":", ":1", ":2", ":-1", ":0"] {
                v.push(format!("$[{s}:{e}{t}]"));
            }
        }
    }
    for n in ["a", "b", "é", "\\n", "\\\\", "n", "0", "", "\\u0061", "*", "A"] {
        v.push(format!("$['{n}']"));
        v.push(format!("$[\"{n}\"]"));
        v.push(format!("$..['{n}']"));
        v.push(format!("$[?@=='{n}']"));
        v.push(format!("$[?@==\"{n}\"]"));
    }
    v.sort();
    v.dedup();
    v
}

fn equality_docs() -> Vec<Value> {
    let mut d = docs(4, &["a", "b"], &[json!(1), json!("a")]);
    d.extend(DOCS.iter().cloned());
    d.extend([json!([0, 1, 2, 3, 4]), json!({"a": [1, 2, 3], "b": "b", "é": 1, "\n": 2, "\\": 3, "n": 4, "0": 5, "": 6, "*": 7, "A": 8})]);
    d
}

pub fn c17(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let segs = Arc::new(crate::props::nodes::segments());
        let n = segs.len();
        let step = if thorough { 1 } else { 5 };
        ph.push(phase("segments", format!("all sequences of one or two of {n} segments, of three{}; the same in filters", if thorough { "" } else { " every fifth" }), n, move |u, cx| {
            let a = &segs[u];
            for w in ["$S", "$[?@S]", "$[?!@S]", "$[?$S]", "$[?count(@S)==1]", "$[?value($S)<'a']", "$[?x_n_n(@S)]", "$[?x_l_l(@S)]", "$[?x_l_l(!@S||$S)]", "$[?(@S)]", "$[?!(@S&&@)]"] {
                display(cx, &w.replace('S', a));
                for b in segs.iter() {
                    display(cx, &w.replace('S', &format!("{a}{b}")));
                }
            }
            for b in segs.iter().skip(u % step).step_by(step) {
                for c in segs.iter() {
                    display(cx, &format!("${a}{b}{c}"));
                }
            }
        }));
    }
    {
        let base = Arc::new(grammar::base());
        let chars = grammar::edit_chars(thorough);
        ph.push(phase("edits", format!("{} queries and all accepted ones among those one insertion, deletion or replacement of {} characters away", base.len(), chars.len()), base.len(), move |u, cx| {
            let q: Vec<char> = base[u].chars().collect();
            let mut s = BTreeSet::new();
            s.insert(base[u].clone());
            for i in 0..=q.len() {
                if i < q.len() {
                    s.insert(q[..i].iter().chain(&q[i + 1..]).collect::<String>());
                }
                for c in &chars {
                    s.insert(q[..i].iter().chain([c]).chain(&q[i..]).collect());
                    if i < q.len() {
                        s.insert(q[..i].iter().chain([c]).chain(&q[i + 1..]).collect());
                    }
                }
            }
            for t in s {
                display(cx, &t);
            }
        }));
    }
    {
        let places: Vec<String> = crate::props::func::PLACES.iter().map(|p| format!("$[?{p}]")).collect();
        ph.push(phase("functions", format!("{} argument forms of functions x {} places x functions of one and two parameters", crate::props::func::FORMS.len(), places.len()), places.len(), move |u, cx| {
            for f in ["x_v_v", "x_v_l", "x_n_n", "x_n_v", "x_l_l", "x_l_v", "length", "count", "value"] {
                for a in crate::props::func::FORMS {
                    display(cx, &places[u].replace('F', &format!("{f}({a})")));
                }
            }
            for f in ["x_vv_v", "x_vn_v", "x_ll_l", "match", "search"] {
                for a in crate::props::func::FORMS.iter().step_by(3) {
                    for b in crate::props::func::FORMS.iter().step_by(2) {
                        display(cx, &places[u].replace('F', &format!("{f}({a} , {b})")));
                    }
                }
            }
        }));
    }
    {
        let atoms = ["@.a", "!@.a", "@.a==1", "x__l()", "!x__l()", "(@.b)", "!(@.b)", "@[?@.a]", "1<2"];
        let n = atoms.len();
        let k = if thorough { 5 } else { 4 };
        ph.push(phase("logical expressions", format!("all sequences of up to {k} of {n} operands joined by && and ||, with every parenthesis around a run, negated or not"), n * n, move |u, cx| {
            let ops = ["&&", "||", " && ", "\n||\t"];
            for len in 2..=k {
                for i in 0..n.pow(len as u32 - 2) {
                    let mut t = vec![u % n, u / n];
                    t.extend(tuple(i, len - 2, n));
                    for o in 0..2usize.pow(len as u32 - 1) {
                        let os = tuple(o, len - 1, 2);
                        let join = |par: Option<(usize, usize, &str)>, odd: usize| -> String {
                            let mut s = String::from("$[?");
                            for (i, a) in t.iter().enumerate() {
                                if i > 0 {
                                    s.push_str(ops[os[i - 1] + odd]);
                                }
                                if par.is_some_and(|p| p.0 == i) {
                                    s.push_str(par.unwrap().2);
                                }
                                s.push_str(atoms[*a]);
                                if par.is_some_and(|p| p.1 == i) {
                                    s.push(')');
                                }
                            }
                            s.push(']');
                            s
                        };
                        display(cx, &join(None, 2 * (i % 2)));
                        if len <= 3 {
                            for a in 0..len {
                                for b in a..len {
                                    for p in ["(", "!("] {
                                        display(cx, &join(Some((a, b, p)), 0));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    {
        let n = SYNTAX.len();
        let k = if thorough { 3 } else { 2 };
        ph.push(phase("strings like syntax", format!("names and literals of all sequences of up to {k} of {n} pieces of syntax, in both kinds of quotes"), n, move |u, cx| {
            for s in syntax_strings(u, k) {
                let (a, b) = (quote(&s, '\''), quote(&s, '"'));
                for q in [format!("$[{a}]"), format!("$..[{b}]"), format!("$[?@=={b}]"), format!("$[?@[{a}]<{b}]"), format!("$[?@[{b}]]"), format!("$[?x_v_v({a})!={b}]"), format!("$[?!(x_v_l({b})&&@.a)||$[{a}]]")] {
                    display(cx, &q);
                }
            }
        }));
    }
    {
        let cs = crate::props::select::odd_chars();
        let n = cs.len();
        ph.push(phase("strings", format!("{n} characters in names and literals, alone and in pairs, in both kinds of quotes"), n, move |u, cx| {
            let c = cs[u];
            let one = |cx: &mut Ctx, s: &str| {
                for k in ['\'', '"'] {
                    let l = quote(s, k);
                    for q in [format!("$[{l}]"), format!("$..[{l},0]"), format!("$[?@=={l}]"), format!("$[?@[{l}]]"), format!("$[?@.a[{l}]=={l}]"), format!("$[?x_v_v({l})==1]"), format!("$[?!x_v_l({l})]"), format!("$..a[?match(@,{l})]")] {
                        display(cx, &q);
                    }
                }
            };
            one(cx, &c.to_string());
            one(cx, &format!("a{c}"));
            for q in [format!("$.{c}"), format!("$.a{c}"), format!("$..{c}b"), format!("$[?@.{c}]"), format!("$[?@.a{c}==1]"), format!("$[?x_v_v(@.{c}{c})==1]")] {
                display(cx, &q);
            }
            for d in &cs {
                let l = quote(&format!("{c}{d}"), '"');
                display(cx, &format!("$[{l}]"));
                display(cx, &format!("$[?@=={l}]"));
            }
        }));
    }
    {
        let mut ns: Vec<String> = vec![];
        for m in ["0", "-0", "1", "-1", "9", "10", "123456789", "9007199254740991", "-9007199254740991", "9007199254740993", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "5", "17976931348623157", "22250738585072014", "49406564584124654"] {
            for f in ["", ".0", ".1", ".5", ".25", ".125", ".10", ".000001", ".123456789012345678", ".3", ".7"] {
                for e in ["", "e0", "E1", "e-1", "e+15", "e16", "e17", "e20", "e21", "e22", "e-5", "e-7", "e-17", "e100", "e-100", "e290", "e291", "e-300", "e-320", "e-323", "e-330"] {
                    ns.push(format!("{m}{f}{e}"));
                }
            }
        }
        if thorough {
            for e in -330..=308 {
                for m in ["1", "2.5", "9.999999999999999", "1.7976931348623157"] {
                    ns.push(format!("{m}e{e}"));
                }
            }
        }
        for i in 0..300 {
            ns.push(format!("{i}"));
            ns.push(format!("-{i}.{i}"));
            ns.push(format!("0.{i}"));
        }
        let ns = Arc::new(ns);
        let chunk = 64;
        ph.push(phase("numbers", format!("{} number literals as comparands and arguments, and as indices and slices", ns.len()), ns.len().div_ceil(chunk), move |u, cx| {
            for n in ns[u * chunk..].iter().take(chunk) {
                for q in [format!("$[?@=={n}]"), format!("$[?{n}<@.a]"), format!("$[?x_v_v({n})!={n}]"), format!("$[{n}]"), format!("$[{n}:{n}]"), format!("$[?@[{n}]==1]")] {
                    display(cx, &q);
                }
            }
        }));
    }
    {
        let max = if thorough { 60 } else { 30 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 13)).collect();
        ph.push(phase("nesting and length", format!("{} nested shapes up to depth {max}, and repeated constructs, also about the powers of two up to 2^13", NESTS.len()), ns.len(), move |u, cx| {
            let n = ns[u];
            for i in 0..if n > max { 0 } else { NESTS.len() } {
                display(cx, &nested(i, n));
            }
            for (pre, unit, post) in [("$", ".a", ""), ("$", "..a", ""), ("$", "[0]", ""), ("$[0", ",?@.a", "]"), ("$[?@.a", "&&@.b", "]"), ("$[?@.a", "||!@.b", "]"), ("$[?x_vvvvvvvv_v(1", ",1", ")==1]"), ("$", " ['a']", "")] {
                display(cx, &format!("{pre}{}{post}", unit.repeat(n)));
            }
        }));
    }
    {
        let qs = Arc::new(kindred());
        let ds = Arc::new(equality_docs());
        let n = qs.len();
        ph.push(phase("equality", format!("all pairs of {n} queries that differ in small ways; equal ones evaluated by the model on {} documents", ds.len()), n, move |u, cx| {
            let Ok(p) = JsonPath::parse(&qs[u]) else {
                return;
            };
            display(cx, &qs[u]);
            cx.case(&|| Case::new("same", &qs[u]), &mut |_| {
                let again = JsonPath::parse(&qs[u]).map_err(|e| e.to_string())?;
                ensure!(again == p && p == again && p == p.clone(), "{:?} parsed twice gives unequal queries", qs[u]);
                Ok(())
            });
            for b in &qs[u + 1..] {
                cx.case(&|| Case::new("equal", &qs[u]).x(json!(b)), &mut |st| judge_equal(&qs[u], b, &ds, st));
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    match c.kind.as_str() {
        "any" => match &c.doc {
            Value::Null => judge_any(&c.q, st),
            Value::Array(ds) => judge_any_on(&c.q, ds, st),
            d => judge_any_on(&c.q, std::slice::from_ref(d), st),
        },
        // far beyond the depth that fits on a stack; meant for a process of its own
        "deep" => {
            let i = NESTS.iter().position(|n| n.0 == c.q).expect("a known shape");
            judge_any_on(&nested(i, c.x.as_u64().unwrap() as usize), &DOCS[..1], st)
        }
        "small stack" if c.doc.is_null() => judge_small_stack(&c.q, st),
        "small stack" => judge_small_stack_on(&c.q, &c.doc, st),
        "display" => judge_display(&c.q, st),
        "same" => {
            ensure!(JsonPath::parse(&c.q).ok() == JsonPath::parse(&c.q).ok(), "{:?} parsed twice gives unequal queries", c.q);
            Ok(())
        }
        _ => judge_equal(&c.q, c.x.as_str().unwrap(), &equality_docs(), st),
    }
}
