//! C10 the grammar.

use crate::earley::Recogniser;
use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::tuple;
use crate::judge::{structure_matches, Prepared};
use crate::refparse::{self, Expect};
use serde_json::{json, Value};
use std::sync::{Arc, LazyLock};

/// documents that tell structures apart
static DOCS: LazyLock<Vec<Value>> = LazyLock::new(|| {
    vec![
        json!({"a": [1, {"a": 1, "b": 2}, [1, 2, 3]], "b": {"a": {"a": 1}, "b": [true, null]}, "1": "a", "$": 1, "true": true}),
        json!([{"a": 1, "b": "a"}, {"a": {"b": 1}}, [1, [2, "a"]], "a", null, true, 1, {"b": 1}]),
    ]
});

/// acceptance as the grammar has it; if accepted, the structure shows in what it selects
pub fn judge_text(q: &str, st: &mut Stats) -> Verdict {
    let p = Prepared::new(q);
    st.traces += 1;
    st.states += q.len() as u64 + 1;
    st.transitions += q.len() as u64;
    p.acceptance(st)?;
    if p.both().is_some() {
        for d in DOCS.iter() {
            structure_matches(&p, d, st)?;
        }
    }
    Ok(())
}

pub fn text(cx: &mut Ctx, q: &str) {
    cx.case(&|| Case::new("text", q), &mut |st| judge_text(q, st));
}

/// the reference parser must agree with the RFC's own grammar
fn cross_check(cx: &mut Ctx, q: &str, earley: bool) {
    let r = refparse::grammatical(q);
    if r != earley {
        cx.harness_error(format!("reference parser and ABNF differ on {q:?}: {r} and {earley}"));
    }
    cx.st.class("strings checked against the ABNF");
}

pub const TOKENS: &[&str] = &[
    "$", "@", ".", "..", "[", "]", "*", ",", ":", "?", "!", "(", ")", "&&", "||", "==", "!=", "<", ">=", "=", "&", "|", "1", "0", "-", "-1", "-0", "1.5", "e2",
    "'a'", "\"b\"", "''", "a", "true", "null", "x_v_v", "x__l", "count", " ", "_", "é",
];

pub const CLOSERS: &[&str] = &["", "]", ")]", "==1]", ")==1]", "]]", "])]", "a", "'a']", "1]"];

struct Dfs<'c, 'e> {
    cx: &'c mut Ctx<'e>,
    r: Recogniser,
    s: String,
    tokens: &'static [&'static str],
}

impl Dfs<'_, '_> {
    fn visit(&mut self, depth: usize) {
        if self.cx.stopped() {
            return;
        }
        let acc = self.r.accepted();
        // the state itself, and its completions
        for c in CLOSERS {
            let n = self.r.len();
            let alive = self.r.push_str(c);
            let q = format!("{}{c}", self.s);
            if alive {
                let a = if c.is_empty() { acc } else { self.r.accepted() };
                cross_check(self.cx, &q, a);
                text(self.cx, &q);
                self.r.truncate(n);
            } else {
                cross_check(self.cx, &q, false);
                text(self.cx, &q);
            }
        }
        if depth == 0 {
            return;
        }
        for t in self.tokens {
            let n = self.r.len();
            let l = self.s.len();
            self.s.push_str(t);
            if self.r.push_str(t) {
                self.visit(depth - 1);
                self.r.truncate(n);
            } else {
                // dead: nothing that starts like this is a query
                for c in ["", "]", ")]", "a"] {
                    let q = format!("{}{c}", self.s);
                    cross_check(self.cx, &q, false);
                    text(self.cx, &q);
                }
            }
            self.s.truncate(l);
        }
    }
}

/// contexts from which token sequences are explored, with the depth in the quick tier
pub const CONTEXTS: &[(&str, usize)] = &[
    ("", 4), ("$", 4), ("$[", 4), ("$..", 3), ("$.a", 3), ("$[1", 3), ("$[1:", 3), ("$[:1:", 3), ("$['a'", 3), ("$[?", 3), ("$[?@", 3), ("$[?$", 3), ("$[?@.a", 3), ("$[?@.a==", 3),
    ("$[?@.a == 1", 3), ("$[?1==", 3), ("$[?@.a&&", 3), ("$[?@.a||", 3), ("$[?(", 3), ("$[?!", 3), ("$[?!(", 3), ("$[?(@", 3), ("$[?length(", 3), ("$[?length(@", 3), ("$[?length(@)", 3),
    ("$[?x_l_l(", 3), ("$[?x_l_l(@", 3), ("$[?x_ll_l(@,", 3), ("$[?x_l_l(@==1", 3), ("$[?count(@.*", 3), ("$[?x__l(", 3), ("$[?x_l_l(x__l()", 3), ("$[?@[", 3), ("$[?@[1", 3), ("$[?@['a']", 3),
    ("$[?1", 3), ("$[?'a'", 3), ("$[?true", 3), ("$[?(@.a)", 3), ("$[?!@.a", 3), ("$[?@.a==@", 3), ("$[?@.a==@[", 3), ("$[?@.a==length(", 3), ("$[?@[?", 3), ("$[?@.a,", 3), ("$ ", 3),
];

/// valid queries that together use the whole grammar, for edits
pub fn base() -> Vec<String> {
    let mut v: Vec<String> = [
        "$", "$.a", "$.a.b", "$.*", "$..a", "$..*", "$..[0]", "$['a']", "$[\"a\"]", "$['a','b']", "$[0]", "$[-1]", "$[0,1]", "$[*]", "$[*,*]", "$[1:2]", "$[1:2:3]",
        "$[:]", "$[::]", "$[::2]", "$[:1]", "$[1:]", "$[-1:-2:-1]", "$[1::2]", "$[:2:1]", "$['a',0,*,1:2,?@.a]", "$.a[0]..b['c']", "$..['a','b']", "$..[?@.a]", "$.a1_é", "$._",
        "$[?@]", "$[?$]", "$[?@.a]", "$[?@['a']]", "$[?@[0]]", "$[?@.a.b]", "$[?@..a]", "$[?@.*]", "$[?@[1:2]]", "$[?@['a','b']]", "$[?!@.a]", "$[?!$.a]", "$[?(@.a)]", "$[?!(@.a)]",
        "$[?@.a==1]", "$[?1==@.a]", "$[?@.a=='b']", "$[?@.a==\"b\"]", "$[?@.a==null]", "$[?@.a==true]", "$[?false==@.a]", "$[?@.a==-1.5e3]", "$[?@.a==1E-2]", "$[?@.a==-0]", "$[?@.a==0.5]",
        "$[?@.a!=1]", "$[?@.a<1]", "$[?@.a<=1]", "$[?@.a>1]", "$[?@.a>=1]", "$[?@.a==@.b]", "$[?@.a==$.b[0]]", "$[?@['a']==@[0]]", "$[?@==$]", "$[?1==1]", "$[?'a'<'b']",
        "$[?@.a&&@.b]", "$[?@.a||@.b]", "$[?@.a&&@.b||@.c]", "$[?@.a||@.b&&@.c]", "$[?(@.a||@.b)&&@.c]", "$[?!(@.a&&@.b)||!@.c]", "$[?@.a==1&&@.b!=2]", "$[?(@.a==1)]", "$[?((@.a))]",
        "$[?@.a == 1 && @.b == 2 || !@.c]", "$[?length(@)==1]", "$[?1<length(@.a)]", "$[?count(@.*)>1]", "$[?value(@..a)==1]", "$[?match(@.a,'b')]", "$[?!search(@.a,\"b\")]",
        "$[?length(value(@.*))==1]", "$[?x__l()]", "$[?x__v()==x__v()]", "$[?x_l_l(@.a==1)]", "$[?x_l_l(@.a&&@.b)]", "$[?x_l_l((@.a))]", "$[?x_l_l(!@.a)]", "$[?x_ll_l(@.a,!x__l())]",
        "$[?x_v_v(1)==1]", "$[?x_v_v('a')=='a']", "$[?x_v_v(null)==null]", "$[?x_v_v(true)==false]", "$[?x_l_l(1==1)]", "$[?x_l_l(x__l()&&x__l())]", "$[?x_n_n(@.*)]", "$[?@[?@.a]]",
        "$[?@[?@.a==$.a].b]", "$[?@.a,?@.b]", "$[?@.a,0]", "$[?@[?@[?@]]]", "$[?count(@[?@.a])==1]", "$ .a [0] ..b [ 'c' , 1 ]", "$[ ? @.a == 1 ]", "$[ 1 : 2 : 3 ]", "$[?length( @ )==1]",
        "$[?x_ll_l( @.a , @.b )]", "$[? ! @.a]", "$[?! ( @.a )]", "$[?( @.a || @.b )]", "$[?@.a\n==\t1]", "$\r\n.a", "$[?@ .a]", "$[?@ .a==$ .b]", "$[?true==true_(@)]", "$['\\u00e9\\n\\'']",
        "$[\"\\uD83D\\ude00\\\"\"]", "$.true", "$.null.false", "$[?@.true]", "$[9007199254740991]", "$[-9007199254740991:1]", "$[?@.a==1e+2]", "$[?true(@)==1]", "$[?null(@)]", "$[?g(@)==1]",
    ]
    .map(String::from)
    .to_vec();
    v.sort();
    v.dedup();
    v
}

pub fn edit_chars(thorough: bool) -> Vec<char> {
    let mut v: Vec<char> = (0x20u8..0x7f).map(|c| c as char).collect();
    v.extend(['\u{0}', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'é', '\u{2028}', '\u{3000}', '\u{feff}', '😀', '\u{10ffff}']);
    if !thorough {
        v.retain(|c| !c.is_ascii_alphanumeric() || "abeEflnrtuxAZ_01279".contains(*c));
    }
    v
}

/// constructs that may be repeated, or must not: what comes before, the construct, what separates two, what comes after
const REPEATABLE: &[(&str, &str, &str, &str)] = &[
    ("$", ".a", "", ""), ("$", "[0]", "", ""), ("$", "..a", "", ""), ("$", "['a']", " ", ""), ("$[", "0", ",", "]"), ("$[", "'a'", " , ", "]"), ("$[", "*", ",", "]"),
    ("$[", "1:2", ",", "]"), ("$[", "?@.a", ",", "]"), ("$[?", "@.a", "&&", "]"), ("$[?", "@.a", "||", "]"), ("$[?", "@.a==1", " && ", "]"), ("$[?@", ".a", "", "]"),
    ("$[?@", ".a", "", "==1]"), ("$[?@", "[0]", "", "==1]"), ("$.", "a", "", ""), ("$[", "1", "", "]"), ("$['", "a", "", "']"), ("$['", "\\n", "", "']"), ("$", " ", "", ".a"),
    ("$[", " ", "", "0]"), ("$", "*", "", ""), ("$", ".", "", "a"), ("$[?", "!", "", "@.a]"), ("$[?", "(", "", "@.a]"), ("$[?@.a", ")", "", "]"), ("$", "[", "", "0]"), ("$[0", "]", "", ""),
    ("$[?x_vvvvvvvv_v(", "1", ",", ")==1]"), ("$[?x__l(", " ", "", ")]"), ("$[?@.a==", "1", "", "]"), ("$[?@.a==1.", "0", "", "]"), ("$[?@.a==", "-", "", "1]"), ("$[1", ":", "", "]"),
    ("$[?@.a", "=", "", "1]"), ("$[?@.a", "&", "", "@.b]"), ("$[?@.a", "|", "", "@.b]"), ("$[", ",", "", "]"), ("$[0", ",", "", "0]"), ("", "$", "", ""),
];

pub fn c10(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        // units: context x first token
        let n = TOKENS.len() + 1;
        ph.push(phase(
            "token sequences",
            format!(
                "{} contexts x all sequences of up to {} of {} tokens that the RFC's grammar can continue, and one token beyond, each with {} endings",
                CONTEXTS.len(),
                if thorough { "4 (5 from four contexts)" } else { "3 (4 from three contexts)" },
                TOKENS.len(),
                CLOSERS.len()
            ),
            CONTEXTS.len() * n,
            move |u, cx| {
                let (ctx, depth) = CONTEXTS[u / n];
                let depth = if thorough { depth + 1 } else { depth };
                let mut r = Recogniser::new();
                if !r.push_str(ctx) {
                    cx.harness_error(format!("context {ctx:?} is not a viable prefix"));
                    return;
                }
                let mut s = ctx.to_string();
                let mut d = match (u % n).checked_sub(1) {
                    // the empty sequence
                    None => 0,
                    Some(k) => {
                        s.push_str(TOKENS[k]);
                        if !r.push_str(TOKENS[k]) {
                            for c in CLOSERS {
                                let q = format!("{s}{c}");
                                cross_check(cx, &q, false);
                                text(cx, &q);
                            }
                            return;
                        }
                        depth - 1
                    }
                };
                if u % n == 0 {
                    d = 0;
                }
                Dfs { cx, r, s, tokens: TOKENS }.visit(d);
            },
        ));
    }
    {
        let chars: Vec<char> = "$@.[]*,:?!()&|=<>'\"\\-01ea_ \n".chars().collect();
        let n = chars.len();
        let k = if thorough { 5 } else { 4 };
        ph.push(phase(
            "character sequences",
            format!("all sequences of up to {k} of {n} characters after $, and of up to {} inside $[ ], $[? ] and $[?@.a== ]", k - 1),
            n * n,
            move |u, cx| {
                let two: String = [chars[u % n], chars[u / n]].iter().collect();
                if u == 0 {
                    for c in &chars {
                        for w in [format!("${c}"), format!("$[{c}]"), format!("$[?{c}]"), format!("$[?@.a=={c}]"), c.to_string()] {
                            text(cx, &w);
                        }
                    }
                    text(cx, "");
                }
                for l in 0..=k - 2 {
                    for i in 0..n.pow(l as u32) {
                        let t: String = tuple(i, l, n).iter().map(|&i| chars[i]).collect();
                        text(cx, &format!("${two}{t}"));
                        if l < k - 2 {
                            text(cx, &format!("{two}{t}"));
                            text(cx, &format!("$[{two}{t}]"));
                            text(cx, &format!("$[?{two}{t}]"));
                            text(cx, &format!("$[?@.a=={two}{t}]"));
                        }
                    }
                }
            },
        ));
    }
    let base = Arc::new(base());
    {
        let base = base.clone();
        let chars = edit_chars(thorough);
        ph.push(phase(
            "single edits",
            format!("{} queries x every deletion, insertion and replacement of one character, out of {}; every deletion of two and every swap", base.len(), chars.len()),
            base.len(),
            move |u, cx| {
                let q: Vec<char> = base[u].chars().collect();
                let mut s: Vec<String> = vec![base[u].clone()];
                let j = |a: &[char], m: &str, b: &[char]| -> String { a.iter().collect::<String>() + m + &b.iter().collect::<String>() };
                for i in 0..=q.len() {
                    s.push(j(&q[..i], "", &[]));
                    s.push(j(&[], "", &q[i..]));
                    for c in &chars {
                        s.push(j(&q[..i], &c.to_string(), &q[i..]));
                        if i < q.len() {
                            s.push(j(&q[..i], &c.to_string(), &q[i + 1..]));
                        }
                    }
                    for k in i + 1..=q.len() {
                        // any one run deleted or doubled
                        s.push(j(&q[..i], "", &q[k..]));
                        s.push(j(&q[..k], "", &q[i..]));
                    }
                    if i + 1 < q.len() {
                        let mut w = q.clone();
                        w.swap(i, i + 1);
                        s.push(w.iter().collect());
                    }
                }
                s.sort();
                s.dedup();
                for t in &s {
                    // the whole set in the thorough tier, short ones always
                    if thorough || q.len() <= 12 {
                        cross_check(cx, t, Recogniser::sentence(t));
                    }
                    text(cx, t);
                }
            },
        ));
    }
    {
        let base = base.clone();
        let blanks = [" ", "\t", "\n", "\r", "  ", " \r\n\t ", "\u{b}", "\u{c}", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "/**/"];
        ph.push(phase(
            "whitespace",
            format!("{} queries x every kind of blank, and of other invisible characters, at every position, and blanks at every two positions and at all allowed ones", base.len()),
            base.len(),
            move |u, cx| {
                let q: Vec<char> = base[u].chars().collect();
                let ins = |at: &[usize], b: &str| -> String {
                    let mut s = String::new();
                    for i in 0..=q.len() {
                        if at.contains(&i) {
                            s.push_str(b);
                        }
                        if i < q.len() {
                            s.push(q[i]);
                        }
                    }
                    s
                };
                let mut allowed = vec![];
                for i in 0..=q.len() {
                    for b in blanks {
                        let t = ins(&[i], b);
                        cross_check(cx, &t, Recogniser::sentence(&t));
                        text(cx, &t);
                    }
                    if matches!(refparse::parse(&ins(&[i], " ")), Expect::Accept(_)) {
                        allowed.push(i);
                    }
                    for k in i + 1..=q.len() {
                        if q.len() <= 22 || thorough {
                            text(cx, &ins(&[i, k], " "));
                        }
                    }
                }
                for b in [" ", "\n", "\t\r\n "] {
                    text(cx, &ins(&allowed, b));
                    for i in 0..=q.len() {
                        if !allowed.contains(&i) {
                            let mut a = allowed.clone();
                            a.push(i);
                            text(cx, &ins(&a, b));
                        }
                    }
                }
            },
        ));
    }
    {
        // the parts of two queries put together: the first i characters of one, then the rest of another
        let small: Vec<String> = base.iter().filter(|b| b.len() <= if thorough { 18 } else { 13 }).cloned().collect();
        let n = small.len();
        ph.push(phase("splices", format!("every beginning of each of {n} queries followed by every ending of another"), n, move |u, cx| {
            let a: Vec<char> = small[u].chars().collect();
            for b in &small {
                let b: Vec<char> = b.chars().collect();
                for i in 1..=a.len() {
                    for k in 1..b.len() {
                        text(cx, &a[..i].iter().chain(&b[k..]).collect::<String>());
                    }
                }
            }
        }));
    }
    {
        let max = if thorough { 200 } else { 40 };
        ph.push(phase("repetition", format!("every repeatable construct 0..={max} times"), max + 1, move |n, cx| {
            for (pre, unit, sep, post) in REPEATABLE {
                text(cx, &format!("{pre}{}{post}", vec![*unit; n].join(sep)));
            }
            if n <= 12 {
                for (a, x, b) in [("(", "@.a", ")"), ("!(", "@.a", ")"), ("(", "@.a==1", ")"), ("@[?", "@.a", "]"), ("x_l_l(", "@.a", ")"), ("x_l_l(!", "@.a", ")"), ("x_v_l(x_v_v(", "@", "))"), ("! (", "1==1", " )"), ("x_l_l((", "@", "))")] {
                    text(cx, &format!("$[?{}{x}{}]", a.repeat(n), b.repeat(n)));
                    text(cx, &format!("$[?{}{x}{}]", a.repeat(n), b.repeat(n + 1)));
                    text(cx, &format!("$[?{}{x}{}]", a.repeat(n + 1), b.repeat(n)));
                }
            }
        }));
    }
    {
        let ns = crate::gen::powers(if thorough { 1 << 16 } else { 1 << 12 });
        ph.push(phase("powers of two", format!("repeatable constructs {ns:?} times"), ns.len(), move |u, cx| {
            for (pre, unit, sep, post) in REPEATABLE {
                text(cx, &format!("{pre}{}{post}", vec![*unit; ns[u]].join(sep)));
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    judge_text(&c.q, st)
}
