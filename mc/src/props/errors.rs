//! C29: what a parse error says is true, of the query and of the place it names.

use crate::ast::{Arg, Query, Sel};
use crate::earley::Recogniser;
use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::funcs::{signature, Ty};
use crate::refparse::{self, Expect, Why};
use serde_json_path::JsonPath;
use std::sync::Arc;

/// what is between two markers of a message
fn between<'m>(m: &'m str, a: &str, b: &str) -> Option<&'m str> {
    let i = m.find(a)? + a.len();
    let rest = &m[i..];
    if b.is_empty() {
        return Some(rest);
    }
    Some(&rest[..rest.find(b)?])
}

/// can the string be continued to a sentence of the RFC's grammar?
fn viable(s: &str) -> bool {
    Recogniser::new().push_str(s)
}

/// the grammar allows no blanks inside the brackets of a comparand, the library may
fn open_blanks(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    c.windows(2).any(|w| (w[0] == '[' && w[1].is_ascii_whitespace()) || (w[1] == ']' && w[0].is_ascii_whitespace()))
}

fn kinds(q: &Query, what: &str) -> bool {
    q.segs.iter().any(|s| match what {
        "descendant" => s.desc,
        "wildcard" => s.sels.contains(&Sel::Wild),
        "slice" => s.sels.iter().any(|s| matches!(s, Sel::Slice(..))),
        "filter" => s.sels.iter().any(|s| matches!(s, Sel::Filter(_))),
        _ => s.sels.len() > 1,
    })
}

/// what kind of argument it is, in the words of the library, if its own type is clear
fn received(a: &Arg) -> Option<&'static str> {
    Some(match a {
        Arg::Lit(_) => "literal",
        Arg::Query(q) if q.is_singular() => "singular query",
        Arg::Query(_) => "nodes type",
        Arg::Logical(_) => "logical type",
        Arg::Func(f) => match signature(&f.name)?.1 {
            Ty::V => "value type",
            Ty::N => "nodes type",
            Ty::L => "logical type",
        },
    })
}

fn fits(t: Ty, kind: &str) -> bool {
    match t {
        Ty::V => matches!(kind, "literal" | "singular query" | "value type"),
        Ty::N => matches!(kind, "singular query" | "nodes type"),
        Ty::L => matches!(kind, "singular query" | "nodes type" | "logical type"),
    }
}

fn says(msg: &str, q: &str, at: usize, expect: &Expect, st: &mut Stats) -> Verdict {
    let pre = &q[..at];
    let no = |what: String| Err(format!("{q:?} is rejected with {msg:?} at byte {at}, but {what}"));
    if let Some(name) = between(msg, "function name '", "' is not defined") {
        st.class("undefined function");
        if signature(name).is_some() {
            return no(format!("{name} is defined"));
        }
        if !q[at..].strip_prefix(name).is_some_and(|r| r.starts_with('(')) {
            return no(format!("there is no call of {name}"));
        }
        return Ok(());
    }
    if let (Some(e), Some(r)) = (between(msg, "expected ", " args, but received "), between(msg, " args, but received ", "")) {
        st.class("number of arguments");
        let Some(c) = refparse::call_at(q, at) else { return no("there is no call".into()) };
        let Some((ps, _)) = signature(&c.name) else { return no(format!("{} is not defined", c.name)) };
        if e != ps.len().to_string() || r != c.args.len().to_string() {
            return no(format!("{} has {} parameters and is given {} arguments", c.name, ps.len(), c.args.len()));
        }
        if ps.len() == c.args.len() {
            return no("that is the right number".into());
        }
        return Ok(());
    }
    if let Some(name) = between(msg, "in function ", ", in argument position ") {
        let (Some(p), Some(t), Some(k)) = (
            between(msg, ", in argument position ", ","),
            between(msg, "expected a type that converts to ", ","),
            between(msg, ", received ", ""),
        ) else {
            st.class("other wording");
            return Ok(());
        };
        st.class("type of an argument");
        let Some(c) = refparse::call_at(q, at) else { return no("there is no call".into()) };
        let Some((ps, _)) = signature(&c.name) else { return no(format!("{} is not defined", c.name)) };
        let Ok(p) = p.parse::<usize>() else { return no("that is no position".into()) };
        if name != c.name || p >= c.args.len() || p >= ps.len() {
            return no(format!("the call is of {} with {} arguments", c.name, c.args.len()));
        }
        let want = match ps[p] {
            Ty::V => "ValueType",
            Ty::N => "NodesType",
            Ty::L => "LogicalType",
        };
        if t != want {
            return no(format!("that parameter is a {want}"));
        }
        let got = received(&c.args[p]);
        if got.is_some_and(|g| g != k) {
            return no(format!("that argument is of the kind {}", got.unwrap()));
        }
        if fits(ps[p], k) {
            return no("that fits".into());
        }
        return Ok(());
    }
    if msg.contains("incorrect return type") {
        st.class("type of a result");
        // right after the call, or at it
        if !pre.trim_end().ends_with(')') && refparse::call_at(q, at).is_none() {
            return no("there is no call".into());
        }
        if let Expect::Accept(_) | Expect::Reject(Why::Range) = expect {
            return no("all functions are used as their type allows".into());
        }
        return Ok(());
    }
    for (what, text) in [
        ("descendant", "descendant segments are not singular"),
        ("wildcard", "wildcard segments are not singular"),
        ("slice", "slice segments are not singular"),
        ("filter", "filter segments are not singular"),
        ("several", "long hand segment contained more than one selector"),
    ] {
        if msg.contains(text) {
            st.class("not singular");
            // the query ends here, or starts here
            let starts = || q.char_indices().filter(|(i, c)| *i <= at && matches!(c, '@' | '$')).map(|x| x.0);
            let found = starts().any(|i| refparse::query_at(q, i).is_some_and(|(x, end)| (end == at || i == at) && kinds(&x, what)));
            if !found {
                return no("there is no such query".into());
            }
            return Ok(());
        }
    }
    if msg.contains("contained no selectors") {
        return no("no segment is without selectors".into());
    }
    for (text, next) in [("expected closing ']'", &["]"][..]), ("expected an ending quote", &["'", "\""]), ("dot member name", &["a"]), ("must start with lowercase alpha", &["a"])] {
        if msg.ends_with(text) || (msg.contains(text) && next[0] == "a") {
            st.class("something expected");
            if !open_blanks(pre) && !next.iter().any(|n| viable(&format!("{pre}{n}"))) {
                return no("that could not come there".into());
            }
            // nor may it be there already
            let there = match next[0] {
                "a" => q[at..].starts_with(|c: char| c.is_alphabetic() || c == '_' || c as u32 >= 0x80),
                n => q[at..].starts_with(n),
            };
            if there {
                return no("that is there".into());
            }
            if next[0] == "a" && !pre.ends_with('.') {
                return no("no name is due".into());
            }
            return Ok(());
        }
    }
    st.class("no particulars");
    Ok(())
}

pub fn judge(q: &str, st: &mut Stats) -> Verdict {
    st.traces += 1;
    let e = match JsonPath::parse(q) {
        Ok(_) => {
            st.class("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    let (pos, msg) = (e.position(), e.message());
    if pos < 1 || pos > q.len() + 1 || !q.is_char_boundary(pos - 1) {
        return Err(format!("{q:?} is rejected with the position {pos}: positions are counted from 1 and lie within the query"));
    }
    let at = pos - 1;
    // not before the end of what is valid by itself
    for i in (at + 1..q.len()).filter(|i| q.is_char_boundary(*i)) {
        st.states += 1;
        if let Expect::Accept(_) = refparse::parse(&q[..i]) {
            return Err(format!("{q:?} is rejected at byte {at} ({msg}), but what is wrong comes after the first {i} bytes, which are a valid query"));
        }
    }
    // not after the first thing that cannot be part of any query
    let mut r = Recogniser::new();
    for (i, c) in q[..at].char_indices() {
        st.transitions += 1;
        if !r.push(c) {
            let blank_at_end = refparse::is_blank(c) && q[i..].trim_start_matches(refparse::is_blank).starts_with(']');
            if blank_at_end || open_blanks(&q[..i + c.len_utf8()]) {
                break;
            }
            return Err(format!("{q:?} is rejected at byte {at} ({msg}), but no query starts like the first {} bytes", i + c.len_utf8()));
        }
    }
    says(msg, q, at, &refparse::parse(q), st)
}

fn error(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("error", q), &mut |st| judge(q, st));
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    judge(&c.q, st)
}

/// what is not a single comparand
const MANY: &[&str] = &[
    "@.*", "@..a", "@[*]", "@[1:]", "@[?@.a]", "@['a','b']", "@.a.*", "@.a..b", "@[0][1:2]", "@.a[?@.b==1].c", "@[0,1].a", "$..*", "$..[0,1]", "@..['a','a']", "@[*,?@]", "@.*.a[1:]", "@[::]..a", "@[1:2,3]", "@..[?@.*]",
    "@[ 'a' , 'b' ]", "$ ..a", "@['é😀'].*", "@.é..é",
];

/// around an error
const AROUND: &[(&str, &str)] = &[
    ("$", ""), ("$.a", ""), ("$['é😀']", ""), ("$..*", ".b"), ("$[0]", "[1]"), ("$[?@.a]", ""), ("$ .a ", " .b"), ("$[?@.b==1||@.c].d", "[*]"), ("$['a',\"b\"][-1:]", "..a"),
];

pub fn c29(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    let base = Arc::new(super::grammar::base());
    {
        let base = base.clone();
        let mut chars = super::grammar::edit_chars(false);
        if !thorough {
            chars.retain(|c| !c.is_ascii_alphanumeric() || "aeEu_019".contains(*c));
        }
        ph.push(phase(
            "single edits",
            format!("{} queries x every deletion, insertion and replacement of one character, out of {}, every truncation, deletion of a run, and swap", base.len(), chars.len()),
            base.len(),
            move |u, cx| {
                let q: Vec<char> = base[u].chars().collect();
                let mut s: Vec<String> = vec![base[u].clone()];
                let j = |a: &[char], m: &str, b: &[char]| -> String { a.iter().collect::<String>() + m + &b.iter().collect::<String>() };
                for i in 0..=q.len() {
                    s.push(j(&q[..i], "", &[]));
                    s.push(j(&[], "", &q[i..]));
                    for c in &chars {
                        s.push(j(&q[..i], &c.to_string(), &q[i..]));
                        if i < q.len() {
                            s.push(j(&q[..i], &c.to_string(), &q[i + 1..]));
                        }
                    }
                    for k in i + 1..=q.len() {
                        s.push(j(&q[..i], "", &q[k..]));
                    }
                    if i + 1 < q.len() {
                        let mut w = q.clone();
                        w.swap(i, i + 1);
                        s.push(w.iter().collect());
                    }
                }
                s.sort();
                s.dedup();
                for t in &s {
                    error(cx, t);
                }
            },
        ));
    }
    {
        // every truncation and a few edits, with something before and after
        let base = base.clone();
        ph.push(phase(
            "errors further on",
            format!("{} queries, cut short, or with one of 12 texts inserted, at every place, within {} surroundings", base.len(), AROUND.len()),
            base.len(),
            move |u, cx| {
                let q = &base[u][1..];
                for (a, b) in AROUND {
                    for i in (0..=q.len()).filter(|i| q.is_char_boundary(*i)) {
                        error(cx, &format!("{a}{}{b}", &q[..i]));
                        for x in ["]", "[", ")", "(", "'", ",", " ", "01", "!", "é", "==", "..."] {
                            error(cx, &format!("{a}{}{x}{}{b}", &q[..i], &q[i..]));
                        }
                    }
                }
            },
        ));
    }
    {
        let places = super::func::PLACES;
        let forms = super::func::FORMS;
        let fs = super::func::functions(1);
        ph.push(phase(
            "functions of up to one parameter",
            format!("{} functions x {} argument forms x {} places, and within another filter", fs.len(), forms.len(), places.len()),
            forms.len(),
            move |u, cx| {
                for p in places {
                    for (f, _, _) in &fs {
                        let e = p.replace('F', &format!("{f}({})", forms[u]));
                        error(cx, &format!("$[?{e}]"));
                        error(cx, &format!("$.é['a',?@.a&&@[0,?{e}]]"));
                    }
                    for f in ["nope", "lengt", "length1", "x"] {
                        error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}({})", forms[u]))));
                        error(cx, &format!("$[ ? {} ]", p.replace('F', &format!("{f}( {} )", forms[u]))));
                    }
                    error(cx, &format!("$[?{}]", p.replace('F', forms[u])));
                }
            },
        ));
    }
    {
        let forms = super::func::FORMS;
        let fs: Vec<&str> = super::func::functions(2).into_iter().filter(|f| f.1.len() == 2).map(|f| f.0).collect();
        ph.push(phase(
            "functions of two parameters",
            format!("{} functions x {}^2 argument forms x 3 places", fs.len(), forms.len()),
            forms.len() * fs.len(),
            move |u, cx| {
                let (f, a) = (fs[u / forms.len()], forms[u % forms.len()]);
                for b in forms {
                    for p in ["F", "!F", "@.é=='😀'&&F==1"] {
                        error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}({a},{b})"))));
                    }
                    if thorough {
                        for p in super::func::PLACES {
                            error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}( {a} , {b} )"))));
                        }
                    }
                }
            },
        ));
    }
    {
        // several parameters: which argument is the first that does not fit
        let forms = ["1", "'a'", "@", "@.*", "@.a==1", "(@.a)", "!@", "x__v()", "x__n()", "x__l()", "nope()", "@[0,1]", "length(@,@)", "x_vv_v(1,@.*)"];
        let k = if thorough { 4 } else { 3 };
        ph.push(phase(
            "functions of several parameters",
            format!("8 functions of three to eight parameters x all first {k} arguments out of {} forms, the further ones fitting, in 3 places", forms.len()),
            8 * forms.len() * forms.len(),
            move |u, cx| {
                let (f, ps) = [("x_vnl_v", "vnl"), ("x_lll_l", "lll"), ("x_nnv_n", "nnv"), ("x_vvvv_v", "vvvv"), ("x_nlvnl_v", "nlvnl"), ("x_vvvvvvvv_v", "vvvvvvvv"), ("x_nope", "vnl"), ("x_vv_v", "vv")][u % 8];
                let u = u / 8;
                for i in 0..forms.len().pow(k as u32 - 2) {
                    let mut args = vec![forms[u / forms.len()], forms[u % forms.len()]];
                    args.extend(crate::gen::tuple(i, k - 2, forms.len()).into_iter().map(|j| forms[j]));
                    let rest = ps.chars().skip(k).map(|c| match c {
                        'v' => "@.a",
                        'n' => "@.*",
                        _ => "@.a==1",
                    });
                    args.extend(rest);
                    let (one, two) = (args.join(","), args.iter().rev().copied().collect::<Vec<_>>().join(" , "));
                    for p in ["F", "F==1", "@.é&&!(F)"] {
                        error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}({one})"))));
                        error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}( {two} )"))));
                    }
                }
            },
        ));
    }
    {
        let contexts = super::grammar::CONTEXTS;
        let tokens = super::grammar::TOKENS;
        let k = if thorough { 3 } else { 2 };
        ph.push(phase(
            "token sequences",
            format!("{} contexts x all sequences of up to {k} of {} tokens x {} ends", contexts.len(), tokens.len(), super::grammar::CLOSERS.len()),
            contexts.len() * tokens.len(),
            move |u, cx| {
                let (c, t) = (contexts[u / tokens.len()].0, tokens[u % tokens.len()]);
                for l in 0..k {
                    for i in 0..tokens.len().pow(l as u32) {
                        let s: String = crate::gen::tuple(i, l, tokens.len()).into_iter().map(|j| tokens[j]).collect();
                        for e in super::grammar::CLOSERS {
                            error(cx, &format!("{c}{t}{s}{e}"));
                        }
                    }
                }
            },
        ));
    }
    {
        // every scalar value before, at and after what is wrong
        let step = 0x400;
        ph.push(phase("characters", "every scalar value in 12 rejected queries: in strings and names before the error, at it and after it", 0x110000 / step, move |u, cx| {
            for n in u * step..(u + 1) * step {
                let Some(c) = char::from_u32(n as u32) else { continue };
                if !thorough && n > 0x3100 && n % 0x100 > 3 && n % 0x100 < 0xfd {
                    continue;
                }
                for q in ["$['C'].1", "$.éC.1", "$[?@.a=='C'&&length(1,2)==1]", "$[\"C\",?x_n_n(1)]", "$['C", "$C", "$.C", "$[C]", "$[?C]", "$.1C", "$[?nope('C')]", "$[?@.aC=='😀'&&@.*==1]"] {
                    error(cx, &q.replace('C', c.encode_utf8(&mut [0; 4])));
                }
            }
        }));
    }
    {
        let fs: Vec<(&str, &str)> = crate::custom::TABLE.iter().map(|t| (t.0, t.1)).chain([("length", "v"), ("count", "n"), ("value", "n"), ("match", "vv"), ("search", "vv")]).collect();
        ph.push(phase("numbers of arguments", format!("{} functions x 0..=12 arguments x every position of one that does not fit, in 6 places; and about powers of two and ten", fs.len()), fs.len(), move |u, cx| {
            let (f, ps) = fs[u];
            let ok = |c: char| match c {
                'v' => "@.a",
                'n' => "@.*",
                _ => "@.a==1",
            };
            for k in if thorough { 6..=12 } else { 8..=8 } {
                for extra in [(1usize << k) - 1, 1 << k, (1 << k) + 1, 10usize.pow(k / 4 + 1)] {
                    let args: Vec<&str> = ps.chars().map(ok).chain(std::iter::repeat_n("@", extra)).collect();
                    for p in ["F", "x_l_l(F==1)"] {
                        error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}({})", args.join(",")))));
                    }
                }
            }
            for n in 0..=12usize {
                for other in ["", "1", "@.*", "@.a==1", "'a,b'", "x__v()", "x__n()", "x__l()", "nope(1,2)", "@['a','b']", "(@.a)", "length(@,@)"] {
                    for at in 0..n.max(1) {
                        let args: Vec<&str> = (0..n).map(|i| if i == at && !other.is_empty() { other } else { ps.chars().nth(i).map_or("@", ok) }).collect();
                        for p in ["F", "F==1", "!F", "(@.b&&F)", "x_l_l(F)", "@[?F]"] {
                            error(cx, &format!("$[?{}]", p.replace('F', &format!("{f}({})", args.join(",")))));
                        }
                        if other.is_empty() {
                            break;
                        }
                    }
                }
            }
        }));
    }
    {
        ph.push(phase(
            "comparands that are not singular",
            format!("{} queries x 12 comparisons x {} surroundings x 4 nestings", MANY.len(), AROUND.len()),
            MANY.len(),
            move |u, cx| {
                let m = MANY[u];
                for c in ["M==1", "M!=@.a", "M < M", "1==M", "@.a==M", "length(@)==M", "@.a&&M==1", "!(M==1)", "(@.b||M>='a')", "x_l_l(M==1)", "x_v_v(M)==1", "match(M,'a')"] {
                    let c = c.replace('M', m);
                    for n in ["C", "@.a[?C]", "@[0,?C].b||@.c", "count(@[?C])==1"] {
                        for (a, b) in AROUND {
                            error(cx, &format!("{a}[?{}]{b}", n.replace('C', &c)));
                            error(cx, &format!("{a}['é',?{}{b}", n.replace('C', &c)));
                        }
                    }
                }
            },
        ));
    }
    {
        let small: Vec<String> = base.iter().filter(|b| b.len() <= if thorough { 16 } else { 11 }).cloned().collect();
        let n = small.len();
        ph.push(phase("splices", format!("every beginning of each of {n} queries followed by every ending of another"), n, move |u, cx| {
            let a: Vec<char> = small[u].chars().collect();
            for b in &small {
                let b: Vec<char> = b.chars().collect();
                for i in 1..=a.len() {
                    for k in 0..b.len() {
                        error(cx, &a[..i].iter().chain(&b[k..]).collect::<String>());
                    }
                }
            }
        }));
    }
    ph
}
