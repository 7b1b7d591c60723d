//! C11 string literals and member names, C12 integers and number literals.

use crate::ast::*;
use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{quote, syntax_strings, tuple, SYNTAX};
use crate::judge::{eval_matches, Prepared};
use serde_json::{json, Map, Value};
use std::sync::Arc;

/// the strings that occur in a query, as the model reads it
fn strings_of(q: &Query, out: &mut Vec<String>) {
    for s in &q.segs {
        for sel in &s.sels {
            match sel {
                Sel::Name(n) => out.push(n.clone()),
                Sel::Filter(Expr::Cmp(a, _, b)) => {
                    for o in [a, b] {
                        match o {
                            Operand::Lit(Lit::Str(s)) => out.push(s.clone()),
                            Operand::Func(c) => {
                                for a in &c.args {
                                    if let Arg::Lit(Lit::Str(s)) = a {
                                        out.push(s.clone());
                                    }
                                }
                            }
                            Operand::Query(q) => strings_of(q, out),
                            _ => {}
                        }
                    }
                }
                Sel::Filter(Expr::Exist(q)) => strings_of(q, out),
                Sel::Filter(Expr::Func(c)) => {
                    for a in &c.args {
                        if let Arg::Lit(Lit::Str(s)) = a {
                            out.push(s.clone());
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

/// judge a literal by a document made of what it denotes and of near misses
pub fn judge_string(text: &str, st: &mut Stats) -> Verdict {
    let p = Prepared::new(text);
    st.traces += 1;
    p.acceptance(st)?;
    let Some((q, _)) = p.both() else { return Ok(()) };
    let mut ss = vec![];
    strings_of(q, &mut ss);
    let mut names: Vec<String> = vec![String::new(), "a".into(), text[1..].to_string()];
    for s in ss {
        names.push(format!("{s}a"));
        names.push(format!("a{s}"));
        names.push(s.replace('\\', ""));
        names.push(s.chars().rev().collect());
        names.push(s.to_uppercase());
        names.push(s);
    }
    let mut m = Map::new();
    for n in &names {
        let mut inner = Map::new();
        inner.insert(n.clone(), json!(1));
        m.insert(n.clone(), json!({"s": n, "o": inner}));
    }
    let arr: Value = names.iter().map(|n| json!(n)).collect();
    let objs: Value = names.iter().map(|n| Value::Object([(n.clone(), json!(1))].into_iter().collect())).collect();
    for d in [Value::Object(m), arr, objs] {
        eval_matches(&p, &d, st)?;
    }
    Ok(())
}

fn string_case(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("string", q), &mut |st| judge_string(q, st));
}

/// a literal in every position a literal may have
fn positions(cx: &mut Ctx, lit: &str) {
    for q in [format!("$[{lit}]"), format!("$[?@=={lit}]"), format!("$[?x_v_v({lit})==@]")] {
        string_case(cx, &q);
    }
}

fn more_positions(cx: &mut Ctx, lit: &str) {
    positions(cx, lit);
    for q in [
        format!("$..[{lit}]"), format!("$[{lit},'a']"), format!("$['a', {lit}]"), format!("$[?@[{lit}]]"), format!("$[?@[{lit}]==1]"), format!("$[?{lit}!=@]"), format!("$[?{lit}<@]"),
        format!("$[?x_vv_l({lit},{lit})]"), format!("$[?length({lit})==1]"), format!("$[?{lit}==value(@.s)]"),
    ] {
        string_case(cx, &q);
    }
}

pub fn c11(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let step = if thorough { 1 } else { 0x40 };
        let chars: Arc<Vec<char>> = Arc::new(
            (0u32..if thorough { 0x110000 } else { 0x3100 })
                .chain((0x3100..0x110000).step_by(step))
                .chain([0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x10ffff])
                .filter_map(char::from_u32)
                .collect(),
        );
        let chunk = 512;
        ph.push(phase(
            "every character",
            format!("{} characters ({}), raw in both kinds of literal, after a backslash, and in member names", chars.len(), if thorough { "all" } else { "all below U+3100, beyond that every 64th and the boundaries" }),
            chars.len().div_ceil(chunk),
            move |u, cx| {
                for &c in chars[u * chunk..].iter().take(chunk) {
                    let mut ls = vec![];
                    for q in ['\'', '"'] {
                        ls.push(format!("{q}{c}{q}"));
                        ls.push(format!("{q}\\{c}{q}"));
                        if (c as u32) < 0x3000 {
                            ls.push(format!("{q}a{c}b{q}"));
                            ls.push(format!("{q}a\\{c}b{q}"));
                            ls.push(format!("{q}\\\\{c}{q}"));
                        }
                    }
                    for l in &ls {
                        positions(cx, l);
                    }
                    for q in [
                        format!("$.{c}"), format!("$.a{c}"), format!("$.{c}a"), format!("$..{c}"), format!("$..a{c}b"), format!("$[?@.{c}]"), format!("$[?@.a{c}==1]"), format!("$.a.{c}1"), format!("$.1{c}"), format!("$.{c}1"), format!("$.{c}{c}"),
                    ] {
                        string_case(cx, &q);
                    }
                }
            },
        ));
    }
    {
        ph.push(phase("every \\u escape", "65536 code units x three ways of writing the hex digits x both quotes".to_string(), 256, move |u, cx| {
            for lo in 0..256u32 {
                let cu = (u as u32) << 8 | lo;
                let mixed: String = format!("{cu:04x}").chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
                for (i, h) in [format!("{cu:04x}"), format!("{cu:04X}"), mixed].into_iter().enumerate() {
                    for q in ['\'', '"'] {
                        string_case(cx, &format!("$[{q}\\u{h}{q}]"));
                        if i == 0 {
                            string_case(cx, &format!("$[?@=={q}a\\u{h}b{q}]"));
                            string_case(cx, &format!("$[?x_v_v({q}\\u{h}\\u0041{q})==@]"));
                        }
                    }
                }
            }
        }));
    }
    {
        let lows: Vec<u32> = if thorough {
            (0xdc00..0xe000).collect()
        } else {
            (0xdc00..0xe000).step_by(37).chain([0xdc01, 0xdc7f, 0xdc80, 0xdcff, 0xdd00, 0xdfff]).collect()
        };
        let wrong = [0x0041u32, 0xd7ff, 0xd800, 0xdbff, 0xe000, 0xffff, 0x0000];
        ph.push(phase(
            "surrogate pairs",
            format!("1024 high surrogates x {} low ones, in either case; and x {} that are none", lows.len(), wrong.len()),
            1024,
            move |u, cx| {
                let h = 0xd800 + u as u32;
                for l in lows.iter().chain(&wrong) {
                    string_case(cx, &format!("$['\\u{h:04x}\\u{l:04X}']"));
                    string_case(cx, &format!("$[\"\\u{h:04X}\\u{l:04x}\"]"));
                }
                for l in lows.iter().chain(&wrong).take(3).chain(&wrong) {
                    positions(cx, &format!("'x\\u{h:04X}\\u{l:04X}y'"));
                    positions(cx, &format!("\"\\u{l:04X}\\u{h:04X}\""));
                }
                for t in ["", "\\", "\\u", "\\uD", "\\uDC", "\\uDC0", "a", "\\n", "\\\\uDC00", "uDC00", " \\uDC00", "\\UDC00", "\\uDC0g", "\\u{DC00}"] {
                    string_case(cx, &format!("$['\\u{h:04x}{t}']"));
                    string_case(cx, &format!("$['\\u{h:04x}{t}"));
                }
            },
        ));
    }
    {
        // sequences of pieces
        let pieces: &[&str] = &[
            "a", "é", "😀", "\\n", "\\t", "\\b", "\\f", "\\r", "\\/", "\\\\", "\\'", "\\\"", "'", "\"", "\\u0041", "\\u000a", "\\u00E9", "\\u0027", "\\u0022", "\\u005c", "\\ud83d\\ude00", "\\uD83D", "\\uDE00", "\\u12",
            "\\", "\\x", "\n", "\u{0}", "\u{7f}", "/", " ", "$", "]", "\\u", "u0041",
        ];
        let n = pieces.len();
        let k = if thorough { 4 } else { 3 };
        ph.push(phase("sequences", format!("all sequences of up to {k} of {n} pieces, valid and invalid, in both kinds of literal"), n * n, move |u, cx| {
            let ab = format!("{}{}", pieces[u % n], pieces[u / n]);
            if u < n {
                for q in ['\'', '"'] {
                    more_positions(cx, &format!("{q}{}{q}", pieces[u]));
                    more_positions(cx, &format!("{q}{q}"));
                    more_positions(cx, &format!("{q}{}", pieces[u]));
                    more_positions(cx, &format!("{}{q}", pieces[u]));
                }
            }
            for l in 0..=k - 2 {
                for i in 0..n.pow(l as u32) {
                    let rest: String = tuple(i, l, n).iter().map(|&i| pieces[i]).collect();
                    for q in ['\'', '"'] {
                        let lit = format!("{q}{ab}{rest}{q}");
                        if l == 0 {
                            more_positions(cx, &lit);
                        } else {
                            positions(cx, &lit);
                        }
                    }
                }
            }
        }));
    }
    {
        let n = SYNTAX.len();
        let k = if thorough { 4 } else { 3 };
        ph.push(phase("strings like syntax", format!("all strings of up to {k} of {n} pieces of syntax, as literals and names in both kinds of quotes, properly written and as they are"), n, move |u, cx| {
            for s in syntax_strings(u, k) {
                for q in ['\'', '"'] {
                    positions(cx, &quote(&s, q));
                    string_case(cx, &format!("$[{q}{s}{q}]"));
                }
            }
        }));
    }
    {
        // hex digits: every character at every place of an escape
        ph.push(phase("hex digits", "every ASCII character, and some others, at each of the places of one escape and of two", 160, move |u, cx| {
            let c = match u {
                0..=127 => u as u8 as char,
                _ => ['é', '０', '١', 'ａ', '\u{660}', '𝟎', 'Ａ', '\u{130}'][u % 8],
            };
            for t in ["0041", "00e9", "d83d\\ude00", "D83D\\uDE00", "ffff", "0000"] {
                let t: Vec<char> = t.chars().collect();
                for i in 0..t.len() {
                    let mut s = t.clone();
                    s[i] = c;
                    let s: String = s.iter().collect();
                    string_case(cx, &format!("$['\\u{s}']"));
                    string_case(cx, &format!("$[?@==\"\\u{s}\"]"));
                    let mut s = t.clone();
                    s.insert(i, c);
                    let s: String = s.iter().collect();
                    string_case(cx, &format!("$['\\u{s}']"));
                    s.char_indices().for_each(|(k, _)| {
                        string_case(cx, &format!("$['\\u{}']", &s[..k]));
                        string_case(cx, &format!("$['\\u{}", &s[..k]));
                    });
                }
            }
        }));
    }
    {
        // every string can be written: as it is, with every character escaped, and in mixtures
        let alphabet: Vec<char> = crate::props::select::odd_chars();
        let n = alphabet.len();
        ph.push(phase("writing every string", format!("all strings of up to 2 of {n} characters, written in 3 ways"), n, move |u, cx| {
            let write = |s: &[char], q: char, mode: usize| -> String {
                let mut o = String::from(q);
                for (i, &c) in s.iter().enumerate() {
                    let raw = (c as u32) >= 0x20 && c != '\\' && c != q;
                    if raw && (mode == 0 || mode == 2 && i % 2 == 0) {
                        o.push(c);
                    } else {
                        let mut b = [0; 2];
                        for cu in c.encode_utf16(&mut b) {
                            o.push_str(&format!("\\u{cu:04x}"));
                        }
                    }
                }
                o.push(q);
                o
            };
            for mode in 0..3 {
                for q in ['\'', '"'] {
                    positions(cx, &write(&[alphabet[u]], q, mode));
                    for &c in &alphabet {
                        string_case(cx, &format!("$[{}]", write(&[alphabet[u], c], q, mode)));
                    }
                }
            }
        }));
    }
    {
        let max = if thorough { 2000 } else { 300 };
        let ns: Vec<usize> = (0..=max).chain(crate::gen::powers(1 << 16)).collect();
        ph.push(phase("long literals", format!("literals and names of 0..={max} characters, and of about the powers of two up to 2^16, with one special piece anywhere near the ends"), ns.len(), move |u, cx| {
            let n = ns[u];
            for (unit, _) in [("a", 0), ("é", 0), ("\\n", 0), ("\\u00e9", 0), ("\\ud83d\\ude00", 0), ("'", 1), ("\\\\", 0)] {
                let l = unit.repeat(n);
                string_case(cx, &format!("$[\"{l}\"]"));
                string_case(cx, &format!("$[?@==\"{l}\"]"));
                string_case(cx, &format!("$[\"{l}\\\"]"));
            }
            string_case(cx, &format!("$.{}", "a".repeat(n)));
            string_case(cx, &format!("$.é{}", "1".repeat(n)));
            for k in [0, 1, n / 2, n.saturating_sub(1)] {
                if k <= n {
                    for x in ["\\\"", "\\u0000", "\n", "\\x", "\"", "é"] {
                        string_case(cx, &format!("$[\"{}{x}{}\"]", "a".repeat(k), "a".repeat(n - k)));
                    }
                }
            }
        }));
    }
    ph
}

// ---- C12 ----

/// judge a query around a number by a document with the number and others close to it
pub fn judge_number(text: &str, lit: &str, st: &mut Stats) -> Verdict {
    let p = Prepared::new(text);
    st.traces += 1;
    p.acceptance(st)?;
    if p.both().is_none() {
        return Ok(());
    }
    // integers a double cannot hold exactly: how precisely they compare is left open
    if lit.trim().parse::<i128>().map_or(lit.len() > 18, |i| i.abs() > 1 << 53) && !lit.contains(['.', 'e', 'E']) {
        st.class("beyond double precision");
        return Ok(());
    }
    let mut vals: Vec<Value> = vec![json!(0), json!(1), json!(-1), json!(lit), json!(null), json!(10)];
    if let Ok(v) = serde_json::from_str::<Value>(lit) {
        if let Some(f) = v.as_f64() {
            for g in [f, -f, f.next_up(), f.next_down(), f.trunc(), f * 10.0, f / 10.0, f.abs() + 1.0] {
                if g.is_finite() {
                    vals.push(json!(g));
                    if g.fract() == 0.0 && g.abs() <= 9007199254740992.0 {
                        vals.push(json!(g as i64));
                    }
                }
            }
        }
        vals.push(v);
    }
    let arr = Value::Array(vals);
    eval_matches(&p, &arr, st)
}

fn number_case(cx: &mut Ctx, q: &str, lit: &str) {
    cx.case(&|| Case::new("number", q).x(json!(lit)), &mut |st| judge_number(q, lit, st));
}

fn number_positions(cx: &mut Ctx, n: &str, all: bool) {
    for q in [format!("$[{n}]"), format!("$[?@=={n}]"), format!("$[{n}:]"), format!("$[?x_v_v({n})==@]")] {
        number_case(cx, &q, n);
    }
    if all {
        for q in [
            format!("$[:{n}]"), format!("$[::{n}]"), format!("$[{n}:{n}:{n}]"), format!("$[0,{n}]"), format!("$..[{n}]"), format!("$[?{n}==@]"), format!("$[?@<{n}]"), format!("$[?@>={n}]"), format!("$[?@!={n}]"), format!("$[?@[{n}]]"),
            format!("$[?$[{}]==@]", n.trim_start_matches('-')), format!("$[?{n}=={n}]"), format!("$[?x_vv_v({n},@)==@]"), format!("$[?{n}]"), format!("$[?(@=={n})]"), format!("$[ {n} : {n} ]"), format!("$[?@== {n} &&@]"),
        ] {
            number_case(cx, &q, n);
        }
    }
}

pub fn c12(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let alphabet: Vec<char> = "-+0129.eE".chars().collect();
        let n = alphabet.len();
        let k = if thorough { 7 } else { 5 };
        ph.push(phase("character sequences", format!("all sequences of up to {k} of {n} characters, in 4 positions (up to {} in 21)", k - 2), n * n, move |u, cx| {
            let ab: String = [alphabet[u % n], alphabet[u / n]].iter().collect();
            if u < n {
                number_positions(cx, &alphabet[u].to_string(), true);
            }
            for l in 0..=k - 2 {
                for i in 0..n.pow(l as u32) {
                    let t: String = tuple(i, l, n).iter().map(|&i| alphabet[i]).collect();
                    number_positions(cx, &format!("{ab}{t}"), l + 2 <= k - 2);
                }
            }
        }));
    }
    {
        // the ends of the ranges
        let mut ns: Vec<String> = vec![];
        let mut centers: Vec<i128> = vec![0];
        for b in [7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 48, 52, 53, 54, 62, 63, 64, 65, 100, 126] {
            centers.push(1i128 << b);
        }
        for d in 1..38 {
            centers.push(10i128.pow(d));
        }
        for c in centers {
            for off in -3i128..=3 {
                for sign in [1, -1] {
                    ns.push((sign * (c + off)).to_string());
                }
            }
        }
        for digits in 1..60usize {
            for d in ["1", "9", "0", "5"] {
                ns.push(d.repeat(digits));
                ns.push(format!("-{}", d.repeat(digits)));
                ns.push(format!("1{}", "0".repeat(digits)));
            }
        }
        ns.sort();
        ns.dedup();
        let ns = Arc::new(ns);
        ph.push(phase("range", format!("{} integers at powers of two and ten and of up to 60 digits, in 21 positions", ns.len()), ns.len().div_ceil(8), move |u, cx| {
            for n in ns[u * 8..].iter().take(8) {
                number_positions(cx, n, true);
                for z in ["0", "00", "-0", "+", " ", "--"] {
                    number_positions(cx, &format!("{z}{n}"), false);
                }
            }
        }));
    }
    {
        // fractions and exponents
        let ints = ["0", "-0", "1", "-1", "9", "10", "-10", "123456789", "9007199254740991", "-9007199254740991", "00", "01", "-01", "+1", ""];
        let fracs = ["", ".0", ".1", ".5", ".25", ".9", ".10", ".000001", ".00", ".123456789012345", ".", "..1", ".1.", ".-1", ". 1", ".e", ".1e"];
        let mut exps: Vec<String> = vec!["".into(), "e".into(), "E".into(), "e+".into(), "E-".into(), "e.5".into(), "e1.5".into(), "ee1".into(), "e 1".into(), " e1".into(), "e--1".into(), "e1e1".into()];
        for k in if thorough { 0..=330 } else { 0..=40 } {
            for e in ["e", "E"] {
                for s in ["", "+", "-"] {
                    exps.push(format!("{e}{s}{k}"));
                    if k < 3 {
                        exps.push(format!("{e}{s}0{k}"));
                        exps.push(format!("{e}{s}00{k}"));
                    }
                }
            }
        }
        for k in [99, 100, 290, 300, 307, 308, 309, 323, 324, 325, 400, 1000, 99999] {
            for s in ["e", "e-", "E+"] {
                exps.push(format!("{s}{k}"));
            }
        }
        exps.sort();
        exps.dedup();
        let exps = Arc::new(exps);
        ph.push(phase(
            "fractions and exponents",
            format!("{} integer parts x {} fractions x {} exponents", ints.len(), fracs.len(), exps.len()),
            ints.len() * fracs.len(),
            move |u, cx| {
                let (i, f) = (ints[u % ints.len()], fracs[u / ints.len()]);
                for e in exps.iter() {
                    let n = format!("{i}{f}{e}");
                    number_positions(cx, &n, e.len() < 3);
                }
            },
        ));
    }
    {
        // the same value in different notations: all pairs compare equal or not as their values do
        let mut ns: Vec<String> = vec![];
        for m in ["1", "10", "100", "0.1", "0.01", "1.0", "1.5", "15", "0.15", "-1", "-1.0", "-0", "0", "0.0", "123", "12.3", "1.23", "9007199254740991", "2", "0.5", "5"] {
            for e in ["", "e0", "e1", "E-1", "e+2", "e-2"] {
                ns.push(format!("{m}{e}"));
            }
        }
        let ns = Arc::new(ns);
        ph.push(phase("notations", format!("{} literals compared with each other, and with nodes", ns.len()), ns.len(), move |u, cx| {
            for b in ns.iter() {
                for op in ["==", "<", ">="] {
                    number_case(cx, &format!("$[?{}{op}{b}]", ns[u]), b);
                    number_case(cx, &format!("$[?x_v_v({}){op}x_v_v({b})]", ns[u]), b);
                }
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    match c.kind.as_str() {
        "string" => judge_string(&c.q, st),
        _ => judge_number(&c.q, c.x.as_str().unwrap(), st),
    }
}
