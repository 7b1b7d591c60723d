//! C08 well-typedness, C09 custom functions.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::funcs::{record, Ty};
use crate::gen::docs;
use crate::eval::Dev;
use crate::judge::{eval_all, eval_matches, model, model_dev, prepare, Prepared};
use crate::refparse;
use serde_json::{json, Value};
use std::sync::Arc;

/// arguments of every form: literals, queries, functions of each type, logical expressions; right
/// and wrong ones
pub const FORMS: &[&str] = &[
    "1", "'a'", "null", "true", "-1.5",
    "@", "@.a", "$[0]", "@['a'][1]", "$", "@.a.b",
    "@.*", "@..a", "@[0,1]", "@[?@.a]", "@[1:]", "$..*", "@['a','a']", "@[?@.a].b",
    "x__v()", "x__n()", "x__l()", "x_v_v(@)", "x_n_n(@.*)", "x_n_l(@)", "x_l_l(@.a==1)", "length(@.a)", "count(@.*)", "value(@..a)",
    "match(@.a,'a')", "x_n_v(@.*)", "x_vv_v(1,@)",
    "x_v_v(@.*)", "x_n_n(1)", "x_l_l(1)", "nope()", "nope(@)", "x_v_v()", "x_v_v(1,2)", "x_n_l(x__v())", "x_l_v(x__v())", "x_n_n(x__l())",
    "@.a==1", "@.a==@.b", "1==1", "x__v()==1", "@.a<1||@.b", "@.a&&@.b", "!@.a", "(@.a)", "!(@.a)", "!x__l()", "!x__n()", "(x__l())", "(x__n())", "x__l()||x__n()",
    "!@.*", "@.*&&@.a", "(@.a==1)", "x__l()&&@.a", "!x_l_l(@.a)", "((@.a))", "@[?@.a==1]&&@.a", "length(@)>1",
    "!x__v()", "(x__v())", "x__v()&&@.a", "x__n()==1", "x__l()==1", "@.*==1", "1==@..a", "(1)", "!1", "1&&@.a", "('a')", "@.a==1==1", "@.a==x__l()", "true&&false", "!(1==1)",
    "(x__v()==1)", "x__n()&&x__v()", "x_v_v(@.*)==1", "nope()==1", "!nope()",
];

/// positions of a function expression
pub const PLACES: &[&str] = &[
    "F", "!F", "(F)", "!(F)", "F==1", "1==F", "F==F", "F<@.a", "$.a!=F", "F&&@.a", "@.b||F", "!F&&!F", "F==x__v()", "F==null", "F=='a'",
    "x_v_v(F)==1", "x_n_v(F)==1", "x_l_v(F)==1", "x_v_l(F)", "x_n_l(F)", "x_l_l(F)", "x_n_n(F)", "x_v_n(F)", "x_l_n(F)", "length(F)==1", "count(F)==1",
    "value(F)==1", "match(F,'a')", "match('a',F)", "search(F,F)", "x_vv_v(F,1)==1", "x_vn_v(1,F)==F", "x_ll_l(F,!F)", "x_l_l(F==1)", "x_l_l(F&&F)", "x_l_l((F))", "x_l_l(!F)",
    "@[?F]", "@[?F==1]", "@[?!F].a", "count(@[?F])==1", "F,?F", "x_v_v(x_v_v(F))==1", "x_n_l(x_n_n(F))", "x_l_l(x_l_l(F))", "!x_l_l(F)", "F == F && F != F",
];

fn place(p: &str, f: &str) -> String {
    format!("$[?{}]", p.replace('F', f))
}

fn parse_only(cx: &mut Ctx, q: &str) {
    prepare(cx, q);
}

/// all functions of at most `k` parameters, with their parameter types and result type
pub fn functions(k: usize) -> Vec<(&'static str, &'static str, char)> {
    crate::custom::TABLE
        .iter()
        .filter(|(n, p, _)| n.starts_with("x_") && p.len() <= k)
        .copied()
        .chain([("length", "v", 'v'), ("count", "n", 'v'), ("value", "n", 'v'), ("match", "vv", 'l'), ("search", "vv", 'l')])
        .filter(|(_, p, _)| p.len() <= k)
        .collect()
}

pub fn c08(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let fs = functions(1);
        ph.push(phase(
            "one argument, all places",
            format!("{} functions of up to one parameter x {} argument forms x {} places", fs.len(), FORMS.len(), PLACES.len()),
            FORMS.len(),
            move |u, cx| {
                for (f, _, _) in &fs {
                    for p in PLACES {
                        parse_only(cx, &place(p, &format!("{f}({})", FORMS[u])));
                    }
                }
                for p in PLACES {
                    parse_only(cx, &place(p, FORMS[u]));
                    parse_only(cx, &place(p, &format!("nope({})", FORMS[u])));
                }
            },
        ));
    }
    {
        let fs: Vec<_> = functions(2).into_iter().filter(|(_, p, _)| p.len() == 2).collect();
        ph.push(phase(
            "two arguments",
            format!("{} functions of two parameters x {}^2 argument forms x 6 places", fs.len(), FORMS.len()),
            FORMS.len() * fs.len(),
            move |u, cx| {
                let (f, _, r) = fs[u / FORMS.len()];
                let a = FORMS[u % FORMS.len()];
                for b in FORMS {
                    let call = format!("{f}({a},{b})");
                    let places: &[&str] = match r {
                        'v' => &["F==1", "F", "x_v_l(F)", "!F", "x_l_l(F)", "x_l_l(F==F)"],
                        'n' => &["F", "!F", "F==1", "x_n_l(F)", "x_l_l(F)", "x_v_v(F)==1"],
                        _ => &["F", "!F", "F==1", "x_n_l(F)", "x_l_l(F)", "x_v_v(F)==1"],
                    };
                    let k = if thorough { places.len() } else { 3 };
                    for p in &places[..k] {
                        parse_only(cx, &place(p, &call));
                    }
                }
            },
        ));
    }
    {
        let small: &[&str] = &[
            "1", "'a'", "@.a", "@.*", "x__v()", "x__n()", "x__l()", "@.a==1", "!@.a", "(@)", "x__v()==1", "!x__v()", "nope()", "x_v_v(@.*)", "$", "(x__n())",
        ];
        let fs = ["x_vnl_v", "x_lll_l", "x_nnv_n"];
        ph.push(phase(
            "three arguments",
            format!("{} functions of three parameters x {}^3 argument forms", fs.len(), small.len()),
            fs.len() * small.len(),
            move |u, cx| {
                let f = fs[u / small.len()];
                let a = small[u % small.len()];
                for b in small {
                    for c in small {
                        for p in ["F", "F==1", "!F", "x_n_l(F)"] {
                            parse_only(cx, &place(p, &format!("{f}({a},{b},{c})")));
                        }
                    }
                }
            },
        ));
    }
    {
        // numbers of arguments, and each argument of a long list
        let fs: Vec<(&str, &str)> = crate::custom::TABLE
            .iter()
            .map(|(n, p, _)| (*n, *p))
            .chain([("length", "v"), ("count", "n"), ("value", "n"), ("match", "vv"), ("search", "vv")])
            .collect();
        let ok = |c: char| match c {
            'v' => "@.a",
            'n' => "@.*",
            _ => "@.a==1",
        };
        ph.push(phase(
            "numbers of arguments",
            format!("{} functions x 0..=10 arguments, each argument in turn of every form", fs.len()),
            fs.len(),
            move |u, cx| {
                let (f, ps) = fs[u];
                let right: Vec<&str> = ps.chars().map(ok).collect();
                for n in 0..=10usize {
                    for fill in ["@", "1", "@.*", "@.a==1"] {
                        let mut args = right.clone();
                        args.truncate(n);
                        while args.len() < n {
                            args.push(fill);
                        }
                        for p in ["F", "F==1", "!F", "x_l_l(F)"] {
                            parse_only(cx, &place(p, &format!("{f}({})", args.join(","))));
                            parse_only(cx, &place(p, &format!("{f}( {} )", args.join(" , "))));
                        }
                    }
                }
                for i in 0..right.len() {
                    for form in FORMS {
                        let mut args = right.clone();
                        args[i] = form;
                        for p in ["F", "F==1", "x_n_n(F)"] {
                            parse_only(cx, &place(p, &format!("{f}({})", args.join(","))));
                        }
                    }
                }
            },
        ));
    }
    {
        // names: everything near a known name
        let mut names: Vec<String> = vec![];
        for n in crate::custom::TABLE.iter().map(|t| t.0).chain(["length", "count", "value", "match", "search"]) {
            names.push(n.into());
            for c in ["a", "_", "0", "x", "l", "s"] {
                names.push(format!("{n}{c}"));
                names.push(format!("{c}{n}"));
            }
            for i in 0..n.len() {
                names.push(format!("{}{}", &n[..i], &n[i + 1..]));
                names.push(n[..i].to_string());
                names.push(format!("{}{}{}", &n[..i], n[i..i + 1].to_uppercase(), &n[i + 1..]));
                names.push(format!("{}_{}", &n[..i], &n[i..]));
            }
        }
        names.extend(["match_func", "len", "size", "keys", "first", "r#match", "lENGTH", "x-v", "x.v", "$", "@", "true", "e", "nul"].map(String::from));
        names.sort();
        names.dedup();
        let names = Arc::new(names);
        ph.push(phase(
            "function names",
            format!("{} names at or near the known ones", names.len()),
            names.len().div_ceil(20),
            move |u, cx| {
                for n in names[u * 20..].iter().take(20) {
                    for a in ["", "@", "@.*", "@,@", "@.a==1", "@,'a'", "1", "@,@,@"] {
                        for p in ["F", "F==1", "!F", "x_v_v(F)==1", "x_n_n(F)", "x_l_l(F)", "F&&F"] {
                            parse_only(cx, &place(p, &format!("{n}({a})")));
                        }
                    }
                }
            },
        ));
    }
    {
        // every chain of functions within functions
        let fs: Vec<&str> = functions(1).into_iter().filter(|f| f.1.len() == 1).map(|f| f.0).collect();
        let depth = if thorough { 4 } else { 3 };
        let n = fs.len();
        ph.push(phase(
            "nested functions",
            format!("all chains of up to {depth} of {n} one-parameter functions around 9 arguments, in 4 places"),
            n * n,
            move |u, cx| {
                let mut chains: Vec<Vec<&str>> = vec![vec![fs[u % n], fs[u / n]]];
                let mut i = 0;
                while i < chains.len() {
                    let c = chains[i].clone();
                    i += 1;
                    if c.len() < depth {
                        for f in &fs {
                            let mut d = c.clone();
                            d.push(f);
                            chains.push(d);
                        }
                    }
                    for a in ["1", "@", "@.*", "@.a==1", "!@", "x__v()", "x__n()", "x__l()", ""] {
                        let mut t = a.to_string();
                        for f in c.iter().rev() {
                            t = format!("{f}({t})");
                        }
                        for p in ["F", "F==1", "!F", "x_l_l(F||@)"] {
                            parse_only(cx, &place(p, &t));
                        }
                    }
                }
            },
        ));
    }
    {
        // where a count kept in a small integer would be that of a correct call again
        let fs: Vec<(&str, &str)> = crate::custom::TABLE.iter().map(|(n, p, _)| (*n, *p)).chain([("length", "v"), ("count", "n"), ("value", "n"), ("match", "vv"), ("search", "vv")]).collect();
        ph.push(phase("many arguments", format!("{} functions x as many arguments as there are parameters and 2^8 .. 2^16 more, one fewer and one more", fs.len()), fs.len(), move |u, cx| {
            let (f, ps) = fs[u];
            let ok = |c: char| match c {
                'v' => "@.a",
                'n' => "@.*",
                _ => "@.a==1",
            };
            for k in 8..=16 {
                for extra in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
                    for fill in ["@", "1"] {
                        let args: Vec<&str> = ps.chars().map(ok).chain(std::iter::repeat_n(fill, extra)).collect();
                        for p in ["F", "F==1"] {
                            parse_only(cx, &place(p, &format!("{f}({})", args.join(","))));
                        }
                    }
                }
            }
        }));
    }
    ph
}

/// results as the RFC has them, and every custom function given what the model gives it
pub fn calls_match(p: &Prepared, doc: &Value, st: &mut Stats) -> Verdict {
    let Some((q, path)) = p.both() else {
        return p.acceptance(st);
    };
    let (_, got) = record(|| path.query(doc).len());
    let (_, want) = record(|| model(q, doc, st).len());
    if let Some(c) = got.iter().find(|c| !want.contains(c)) {
        // a known finding may be what explains it
        let listed = *crate::eval::LISTED;
        let explained = listed != Dev::NONE
            && listed.singles().into_iter().chain([("several known findings at once", listed)]).any(|(id, d)| {
                let (_, want) = record(|| model_dev(q, doc, st, d).len());
                let ok = got.iter().all(|c| want.contains(c));
                if ok {
                    st.class(id);
                }
                ok
            });
        if !explained {
            return Err(format!(
                "in {:?}, {} is called with {}, never so by the RFC; it should be given: {}",
                p.text,
                c.0,
                c.1,
                want.iter().filter(|w| w.0 == c.0).map(|w| w.1.to_string()).collect::<Vec<_>>().join(" or "),
            ));
        }
    }
    st.class_n("calls of custom functions compared", got.len() as u64);
    eval_matches(p, doc, st)
}

pub fn calls_all<'a>(cx: &mut Ctx, q: &str, docs: impl IntoIterator<Item = &'a Value>) {
    let Some(p) = prepare(cx, q) else { return };
    for d in docs {
        cx.case(&|| Case::new("calls", q).doc(d), &mut |st| calls_match(&p, d, st));
    }
}

/// documents whose children give every argument form a distinct outcome
fn call_docs(thorough: bool) -> Vec<Value> {
    let mut v = vec![
        json!([]),
        json!([1, "a", null, true, [], {}]),
        json!([{"a": 1, "b": 2}, {"a": "a"}, {"b": [1, 2]}, {"a": {"b": 3}}, [4, 5], {"a": [6, [7]], "b": null}]),
        json!({"a": {"a": 1, "b": "a"}, "b": {"a": null}, "c": [1, {"a": 2}, [3]], "d": "a", "e": {"a": {"a": {"a": "a"}}}}),
        json!([[{"a": 1}, {"a": 2}, {"b": 3}], [{"a": false}], {"x": {"a": 1}, "a": [1]}]),
    ];
    v.extend(docs(if thorough { 4 } else { 3 }, &["a", "b"], &[json!(1), json!("a")]));
    v
}

/// argument forms that fit some parameter type
fn fitting() -> [(char, Vec<&'static str>); 3] {
    let of = |f: &'static str| {
        move |a: &&str| {
            let q = format!("$[?{}]", f.replace('A', a));
            refparse::parse(&q).query().is_some()
        }
    };
    [
        ('v', FORMS.iter().copied().filter(of("x_v_v(A)==1")).collect()),
        ('n', FORMS.iter().copied().filter(of("x_n_v(A)==1")).collect()),
        ('l', FORMS.iter().copied().filter(of("x_l_v(A)==1")).collect()),
    ]
}

pub fn c09(thorough: bool) -> Vec<Phase> {
    let over = cfg!(feature = "overrides");
    let d = Arc::new(call_docs(thorough));
    let mut ph = vec![];
    if over {
        // standard names taken by custom functions
        let mut qs = vec![];
        for f in ["length", "count", "value", "match", "search"] {
            for a in FORMS {
                for p in PLACES {
                    if p.contains("F==F") && a.len() > 12 {
                        continue;
                    }
                    qs.push(place(p, &format!("{f}({a})")));
                }
                for b in FORMS {
                    qs.push(place("F", &format!("{f}({a},{b})")));
                    qs.push(place("F==@.a", &format!("{f}({a},{b})")));
                }
            }
        }
        let qs = Arc::new(qs);
        let n = qs.len();
        ph.push(phase(
            "standard names overridden",
            format!("{n} calls of five custom functions with the names of standard ones x {} documents", d.len()),
            n.div_ceil(50),
            move |u, cx| {
                for q in qs[u * 50..].iter().take(50) {
                    calls_all(cx, q, d.iter());
                }
            },
        ));
        return ph;
    }
    let fit = fitting();
    let of = move |c: char| fit.iter().find(|(t, _)| *t == c).unwrap().1.clone();
    {
        let mut qs = vec![];
        for (f, ps, _) in functions(1) {
            let args = if ps.is_empty() { vec![""] } else { of(ps.chars().next().unwrap()) };
            for a in args {
                for p in PLACES {
                    qs.push(place(p, &format!("{f}({a})")));
                }
            }
        }
        for (f, ps, _) in crate::custom::TABLE.iter().filter(|(n, p, _)| !n.starts_with("x_") && p.len() == 1) {
            for a in of(ps.chars().next().unwrap()).into_iter().take(8) {
                for p in &PLACES[..20] {
                    qs.push(place(p, &format!("{f}({a})")));
                }
            }
        }
        qs.retain(|q| refparse::parse(q).query().is_some());
        let qs = Arc::new(qs);
        let d = d.clone();
        ph.push(phase(
            "one argument, all places",
            format!("{} well-typed uses of functions of up to one parameter x {} documents", qs.len(), d.len()),
            qs.len().div_ceil(4),
            move |u, cx| {
                for q in qs[u * 4..].iter().take(4) {
                    calls_all(cx, q, d.iter());
                }
            },
        ));
    }
    {
        let mut qs = vec![];
        for (f, ps, r) in functions(2).into_iter().filter(|f| f.1.len() == 2) {
            let t: Vec<char> = ps.chars().collect();
            for a in of(t[0]) {
                for b in of(t[1]) {
                    let c = format!("{f}({a},{b})");
                    match r {
                        'v' => {
                            qs.push(place("F==@.a", &c));
                            if thorough {
                                qs.push(place("x_v_l(F)", &c));
                            }
                        }
                        'n' => {
                            qs.push(place("count(F)>1", &c));
                            if thorough {
                                qs.push(place("F", &c));
                            }
                        }
                        _ => {
                            qs.push(place("F", &c));
                            if thorough {
                                qs.push(place("!F", &c));
                            }
                        }
                    }
                }
            }
        }
        let qs = Arc::new(qs);
        let few: Arc<Vec<Value>> = Arc::new(d.iter().take(if thorough { 40 } else { 5 }).cloned().collect());
        ph.push(phase(
            "two arguments",
            format!("{} well-typed uses of functions of two parameters x {} documents", qs.len(), few.len()),
            qs.len().div_ceil(20),
            move |u, cx| {
                for q in qs[u * 20..].iter().take(20) {
                    calls_all(cx, q, few.iter());
                }
            },
        ));
    }
    {
        let mut qs = vec![];
        let v = ["1", "@.a", "$[0]", "x_v_v(@.b)", "@.x"];
        let n = ["@.a", "@.*", "$..a", "x_n_n(@.*)", "@.x"];
        let l = ["@.a", "@.a==1", "!@.b", "x_n_l(@.*)", "(@.a||@.b)"];
        for (f, ps) in [("x_vnl_v", "vnl"), ("x_lll_l", "lll"), ("x_nnv_n", "nnv"), ("x_vvvv_v", "vvvv"), ("x_nlvnl_v", "nlvnl")] {
            let k = ps.len();
            for i in 0..5usize.pow(k as u32) {
                let t = crate::gen::tuple(i, k, 5);
                let args: Vec<&str> = ps.chars().zip(&t).map(|(c, &i)| if c == 'v' { v[i] } else if c == 'n' { n[i] } else { l[i] }).collect();
                let c = format!("{f}({})", args.join(","));
                qs.push(place(if f.ends_with('v') { "F!=@.a" } else { "F" }, &c));
            }
        }
        for i in 0..8 {
            let mut args = vec!["@.x"; 8];
            args[i] = "@.a";
            args[(i + 1) % 8] = "1";
            qs.push(place("F==1", &format!("x_vvvvvvvv_v({})", args.join(","))));
        }
        let qs = Arc::new(qs);
        let few: Arc<Vec<Value>> = Arc::new(d.iter().take(if thorough { 40 } else { 10 }).cloned().collect());
        ph.push(phase(
            "three to eight arguments",
            format!("{} calls with five choices for each argument x {} documents", qs.len(), few.len()),
            qs.len().div_ceil(20),
            move |u, cx| {
                for q in qs[u * 20..].iter().take(20) {
                    calls_all(cx, q, few.iter());
                }
            },
        ));
    }
    {
        let fs: Vec<&str> = functions(1).into_iter().filter(|f| f.1.len() == 1 && f.0.starts_with('x')).map(|f| f.0).collect();
        let n = fs.len();
        let d: Arc<Vec<Value>> = Arc::new(d.iter().take(12).cloned().collect());
        let depth = if thorough { 5 } else { 4 };
        ph.push(phase(
            "nested functions",
            format!("all well-typed chains of up to {depth} of {n} one-parameter functions x {} documents", d.len()),
            n * n,
            move |u, cx| {
                let mut chains: Vec<Vec<&str>> = vec![vec![fs[u % n], fs[u / n]]];
                let mut i = 0;
                while i < chains.len() {
                    let c = chains[i].clone();
                    i += 1;
                    let mut some = false;
                    for a in ["1", "@", "@.a", "@.*", "@.a==1", "!@.a", "x__v()", "x__n()", "x__l()"] {
                        let mut t = a.to_string();
                        for f in c.iter().rev() {
                            t = format!("{f}({t})");
                        }
                        for p in ["F", "F==1", "!F"] {
                            let q = place(p, &t);
                            if refparse::parse(&q).query().is_some() {
                                some = true;
                                calls_all(cx, &q, d.iter());
                            }
                        }
                    }
                    if some && c.len() < depth {
                        for f in &fs {
                            let mut d = c.clone();
                            d.push(f);
                            chains.push(d);
                        }
                    }
                }
            },
        ));
    }
    {
        // the same function several times in one query, within nested filters, located and plain
        let qs: Vec<String> = [
            "$[?x_n_l(@.*),?!x_n_l(@.*)]", "$..[?x_v_v(@.a)==1]", "$..[?x_n_n(@.*)]", "$[?x_l_l(x_l_l(@.a)&&x_l_l(@.b))]", "$[?@[?x_v_v(@)==x_v_v($[0])]]",
            "$[?count(x_n_n(@[?x_v_l(@.a)]))>0]", "$[?x_v_v(@.a)==x_v_v(@.a) && x_v_v(@.b)==x_v_v(@.b)]", "$.*[?x_v_l(@)]", "$[?by_ident(@.a)==1]", "$[?by_ident_n(@.*)]",
            "$[?q(@.*)]", "$[?g(@.a)==1]", "$[?!q(@.*)]", "$[?x_ll_l(!x_l_l(@.a),(x_l_l(@.b)))]", "$[?x_nn_n(x_n_n(@.a),x_n_n(@.*))]",
        ]
        .map(String::from)
        .to_vec();
        let big = Arc::new(docs(if thorough { 6 } else { 5 }, &["a", "b"], &[json!(1), json!("a")]));
        ph.push(phase(
            "several calls",
            format!("{} queries with several calls, in nested filters and descendant segments x {} documents", qs.len(), big.len()),
            qs.len(),
            move |u, cx| {
                calls_all(cx, &qs[u], big.iter());
                eval_all(cx, &qs[u], big.iter().take(10));
            },
        ));
    }
    ph
}

pub fn judge_calls(c: &Case, st: &mut Stats) -> Verdict {
    let p = Prepared::new(&c.q);
    p.acceptance(st)?;
    calls_match(&p, &c.doc, st)
}
