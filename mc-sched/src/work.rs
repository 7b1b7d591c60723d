//! C23: how the effort of parsing and evaluating grows with nesting and repetition.
//!
//! Effort is the number of basic blocks executed, which is the same on every run. All cycles of
//! the grammar's recursive productions up to a length are gone round ever more often, and all
//! short sequences of repeatable constructs are repeated ever more often, each in valid and
//! several invalid forms. When the size doubles, the effort may grow by no more than that of a
//! polynomial of the third degree.

use crate::pool::{describe, in_child, left_out, parallel, Shared};
use crate::sched::{count, EXIT_WORK};
use serde_json::{json, Value};
use serde_json_path::JsonPath;

/// what nests in what: nonterminal, before, nonterminal, after
const NESTING: &[(char, &str, char, &str)] = &[
    ('L', "(", 'L', ")"),
    ('L', "!(", 'L', ")"),
    ('L', "( ", 'L', " )"),
    ('L', "(@.a&&", 'L', ")"),
    ('L', "(", 'L', "||@.b)"),
    ('L', "l_l(", 'L', ")"),
    ('L', "!l_l(", 'L', ")"),
    ('L', "ll_l(@,", 'L', ")"),
    ('L', "n_l(", 'Q', ")"),
    ('L', "v_l(", 'C', ")"),
    ('L', "", 'Q', ""),
    ('L', "!", 'Q', ""),
    ('L', "1==", 'C', ""),
    ('L', "", 'C', "!=@"),
    ('C', "length(", 'C', ")"),
    ('C', "same( ", 'C', " )"),
    ('C', "vv_v(1,", 'C', ")"),
    ('C', "vv_v(", 'C', ",@)"),
    ('C', "count(", 'Q', ")"),
    ('C', "value(", 'Q', ")"),
    ('C', "l_v(", 'L', ")"),
    ('Q', "@[?", 'L', "]"),
    ('Q', "@..[?", 'L', "]"),
    ('Q', "@.a[0,?", 'L', ",*].b"),
    ('Q', "@[?@.a]['b',? ", 'L', "]"),
    ('Q', "n_n(", 'Q', ")"),
    // what follows, too, can decide how the inner one is understood
    ('Q', "@[?", 'L', ",0]"),
    ('Q', "@[?", 'L', " , ?@.a]"),
    ('Q', "@..[?", 'L', ",'a',*]"),
    ('Q', "@['a',?", 'L', "]"),
    ('Q', "@[?", 'L', "].b"),
    ('Q', "@[?", 'L', "]..[?@.a]"),
    ('Q', "$[?", 'L', "]"),
    ('L', "(", 'L', "&&@.b)"),
    ('L', "(@.a||", 'L', ")"),
    ('L', "(1<2&&!@.b||", 'L', "&&@)"),
    ('L', "ll_l(", 'L', ",@)"),
    ('L', "", 'C', "<1"),
    ('L', "l_l(", 'L', ")&&@"),
];
/// the first ones, of which longer cycles are taken
const BASIC: usize = 26;

/// repeatable units: before all, units, between, after all
const REPEAT: &[(&str, &[&str], &str, &str)] = &[
    ("$", &[".a", "['a']", "[0]", ".*", "..a", "..*", "[1:2]", "[?@.a]", "[0,'b']", " .b", "..[?@.a==1]"], "", ""),
    ("$[", &["0", "'a'", "*", "::2", "?@", "?@.a==1", "?length(@)>1", "\"b\""], ",", "]"),
    ("$[", &["0", "'a'", "*", ":1:", "?@ "], " , ", "]"),
    ("$[?", &["@", "@.a==1", "!@.b", "(@)", "l_l(@)", "1<2", "!l_l(@.a)", "length(@)==1"], "&&", "]"),
    ("$[?", &["@", "@.a==1", "!@.b", "(@)", "l_l(@)", "'a'=='a'", "count(@.*)>1"], "||", "]"),
    ("$[?", &["@&&@", "@.a==1&&!@.b", "(@||@)&&@"], " || ", "]"),
    ("$[?@", &[".a", "['a']", "[0]", "[-1]", ".é"], "", "==1]"),
    ("$[?@", &[".a", "['a']", "[0]", "..a", "[*]", "[?@.a]"], "", "]"),
    ("$[?length(@", &[".a", "['a']", "[0]"], "", ")==1]"),
    ("$[?count(@", &[".a", "..a", "[0]", "[?@.a]"], "", ")==1]"),
    ("$['", &["a", "é", "\\n", "\\u0041", "\\ud83d\\ude00", "\"", "\\'"], "", "']"),
    ("$[?@==\"", &["a", "é", "\\n", "\\u0041", "\\ud83d\\ude00", "'", "\\\""], "", "\"]"),
    ("$[?match(@,'", &["a", "(a)", "[ab]", "\\\\."], "", "')]"),
    ("$.", &["a", "é", "_", "1"], "", ""),
    ("$[", &["1", "0"], "", "]"),
    ("$[?@==1", &["1", "0"], "", "]"),
    ("$[?@==1.", &["1", "0"], "", "]"),
    ("$[?@==1e", &["1", "0"], "", "]"),
    ("$", &[" ", "\n", "\t"], "", ".a"),
    ("$[", &[" ", "\n", "\r"], "", "0]"),
    ("$[?", &[" ", "\n"], "", "@]"),
    ("$[?@.a", &[" ", "\n"], "", "==1]"),
    ("$[?length(", &[" ", "\t"], "", "@)==1]"),
    ("$[?", &["a", "_", "1"], "", "(@)]"),
    ("$[?vv_v(", &["1", "@", "'a'", "length(@)"], ",", ")==1]"),
    ("", &["$", "@", "a", "[", "?", "(", "!", "'", "."], "", ""),
    ("$[?", &["(", "!", "@", "[", "1==", "["], "", ""),
];

/// what an innermost place is filled with
fn core(nt: char) -> &'static [&'static str] {
    match nt {
        'L' => &["@.a==1", "@"],
        'C' => &["1", "@.a"],
        _ => &["@.a", "@"],
    }
}

/// all cycles through productions that begin and end with L, up to a length
fn cycles(max: usize) -> Vec<Vec<usize>> {
    fn go(at: char, path: &mut Vec<usize>, max: usize, out: &mut Vec<Vec<usize>>) {
        if path.len() == max && path.iter().any(|p| *p >= BASIC) {
            return;
        }
        if !path.is_empty() && at == NESTING[path[0]].0 {
            // each cycle once: begin with its smallest production
            if path.iter().all(|p| *p >= path[0]) {
                out.push(path.clone());
            }
        }
        if path.len() == max {
            return;
        }
        for (i, p) in NESTING.iter().enumerate() {
            if p.0 == at {
                path.push(i);
                go(p.2, path, max, out);
                path.pop();
            }
        }
    }
    let mut v = vec![];
    for nt in ['L', 'C', 'Q'] {
        go(nt, &mut vec![], max, &mut v);
    }
    v
}

const FORMS: &[&str] = &["whole", "cut off inside", "wrong inside", "without the end", "wrong end", "blanks"];

/// a nested query of about the given depth
fn nested(cycle: &[usize], core: &str, form: &str, depth: usize) -> String {
    let k = depth.div_ceil(cycle.len());
    let (mut open, mut close) = (String::new(), String::new());
    let one_open: String = cycle.iter().map(|&p| NESTING[p].1).collect();
    let one_close: String = cycle.iter().rev().map(|&p| NESTING[p].3).collect();
    for _ in 0..k {
        open += &one_open;
        close += &one_close;
    }
    let (pre, post) = match NESTING[cycle[0]].0 {
        'C' => ("$[?", "==1]"),
        _ => ("$[?", "]"),
    };
    match form {
        "whole" => format!("{pre}{open}{core}{close}{post}"),
        "cut off inside" => format!("{pre}{open}"),
        "wrong inside" => format!("{pre}{open}%{close}{post}"),
        "without the end" => format!("{pre}{open}{core}{close}"),
        "wrong end" => format!("{pre}{open}{core}{close}%"),
        _ => format!("{pre} {}{core}{} {post}", open.replace('(', "( ").replace('[', "[ "), close.replace(')', " )").replace(']', " ]")),
    }
}

fn repeated(r: usize, units: &[usize], form: &str, times: usize) -> String {
    let (pre, us, sep, post) = REPEAT[r];
    let mut s = vec![];
    for i in 0..times {
        s.push(us[units[i % units.len()]]);
    }
    let body = s.join(sep);
    match form {
        "whole" => format!("{pre}{body}{post}"),
        "cut off inside" => format!("{pre}{body}{sep}"),
        "wrong inside" => format!("{pre}{body}{sep}%{post}"),
        "without the end" => format!("{pre}{body}"),
        "wrong end" => format!("{pre}{body}%"),
        _ => format!("{pre} {body} {post}"),
    }
}

const LIMIT: u64 = 100_000_000;
/// a cubic polynomial gives 8; what is added for lower terms can only make it less
const RATIO: f64 = 9.0;
/// effort that does not depend on the size
const BASE: f64 = 3000.0;

#[repr(C)]
struct Page {
    parse: u64,
    eval: u64,
    ok: u64,
    stage: u64,
}

fn doc() -> Value {
    json!([{"a": 1, "b": [1, 2]}, [{"a": {"b": 1}}, "ab"], 1, "a"])
}

/// (accepted, effort of parsing, of evaluating); in a process of its own, with plenty of stack
fn measure(page: &Shared<Page>, q: &str, d: &Value, evaluate: bool) -> Result<(bool, u64, u64), String> {
    let p = &mut page.all()[0];
    *p = Page { parse: 0, eval: 0, ok: 0, stage: 0 };
    let (r, parse) = count(LIMIT, || JsonPath::parse(q));
    p.parse = parse;
    p.stage = 1;
    if let Ok(path) = r {
        p.ok = 1;
        if !evaluate {
            p.stage = 2;
            return Ok((true, p.parse, 0));
        }
        let (n, a) = count(LIMIT, || path.query(d).len());
        let (m, b) = count(LIMIT, || path.query_located(d).len());
        assert_eq!(n, m);
        p.eval = a + b;
    }
    p.stage = 2;
    Ok((p.ok == 1, p.parse, p.eval))
}

struct Family {
    what: Value,
    make: Box<dyn Fn(usize) -> String>,
    sizes: &'static [usize],
    evaluate: bool,
}

fn families(i: usize, cycles: &[Vec<usize>], reps: &[(usize, Vec<usize>)], thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    if i < cycles.len() {
        let c = &cycles[i];
        for &core in core(NESTING[c[0]].0) {
            for &form in FORMS {
                let c = c.clone();
                // nested queries from the root select the whole document anew at each level
                let evaluate = c.iter().all(|&p| !NESTING[p].1.contains('$'));
                v.push(Family {
                    evaluate,
                    what: json!({"kind": "work", "cycle": c, "core": core, "form": form}),
                    make: Box::new(move |n| nested(&c, core, form, n)),
                    sizes: if thorough { &[12, 24, 48, 96] } else { &[12, 24, 48] },
                });
            }
        }
    } else {
        let (r, u) = reps[i - cycles.len()].clone();
        for &form in FORMS {
            let u = u.clone();
            v.push(Family {
                evaluate: true,
                what: json!({"kind": "work", "repeat": r, "units": u, "form": form}),
                make: Box::new(move |n| repeated(r, &u, form, n)),
                sizes: if thorough { &[16, 32, 64, 128, 256] } else { &[16, 32, 64] },
            });
        }
    }
    v
}

/// the largest ratios met, and how many measurements
fn judge(page: &Shared<Page>, f: &Family) -> Result<(f64, f64, u64, bool), String> {
    let d = doc();
    let mut last: Option<(u64, u64)> = None;
    let (mut rp, mut re, mut n, mut accepted) = (0f64, 0f64, 0, false);
    for &s in f.sizes {
        let q = (f.make)(s);
        let (ok, p, e) = measure(page, &q, &d, f.evaluate)?;
        n += p + e;
        accepted |= ok;
        if let Some((lp, le)) = last {
            for (what, now, before, max) in [("parsing", p, lp, &mut rp), ("evaluating", e, le, &mut re)] {
                let r = now as f64 / (before as f64 + BASE);
                *max = max.max(r);
                if r > RATIO {
                    return Err(format!("{what} takes {now} steps at size {s}, and {before} at half of that: {q}"));
                }
            }
        }
        last = Some((p, e));
    }
    Ok((rp, re, n, accepted))
}

fn spaces(thorough: bool) -> (Vec<Vec<usize>>, Vec<(usize, Vec<usize>)>) {
    let mut reps = vec![];
    for (r, (_, us, _, _)) in REPEAT.iter().enumerate() {
        let n = us.len();
        for a in 0..n {
            reps.push((r, vec![a]));
            for b in 0..n {
                if a != b {
                    reps.push((r, vec![a, b]));
                }
                for c in 0..n {
                    if !(a == b && b == c) {
                        reps.push((r, vec![a, b, c]));
                    }
                }
            }
        }
    }
    (cycles(if thorough { 5 } else { 4 }), reps)
}

fn in_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn guarded(page: &Shared<Page>, f: &Family, out: &Shared<[u8; 4096]>) -> Result<(f64, f64, u64, bool), String> {
    // what exceeds the limit ends its process
    struct P(*const Shared<Page>, *const Family, *const Shared<[u8; 4096]>);
    unsafe impl Send for P {}
    let x = P(page, f, out);
    let st = in_child(move || {
        in_big_stack(move || {
            let x = x;
            let (page, f, out) = unsafe { (&*x.0, &*x.1, &*x.2) };
            let s = match judge(page, f) {
                Ok((a, b, c, d)) => json!([a, b, c, d]).to_string(),
                Err(m) => json!(m.chars().take(1500).collect::<String>()).to_string(),
            };
            let b = s.as_bytes();
            let n = b.len().min(4090);
            out.all()[0][..n].copy_from_slice(&b[..n]);
            out.all()[0][n] = 0;
        })
    });
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == EXIT_WORK {
        let what = if page.all()[0].stage == 0 { "parsing" } else { "evaluating" };
        let q = (f.make)(f.sizes[0]);
        return Err(format!("{what} takes more than {LIMIT} steps; the shape at size {}: {q}", f.sizes[0]));
    }
    if st != 0 {
        return Err(format!("{}; the shape at size {}: {}", describe(st), f.sizes[0], (f.make)(f.sizes[0])));
    }
    let b = &out.all()[0];
    let n = b.iter().position(|c| *c == 0).unwrap();
    let v: Value = serde_json::from_slice(&b[..n]).unwrap();
    match v {
        Value::String(m) => Err(m),
        v => Ok((v[0].as_f64().unwrap(), v[1].as_f64().unwrap(), v[2].as_u64().unwrap(), v[3].as_bool().unwrap())),
    }
}

pub fn run(thorough: bool) -> Value {
    let (cs, reps) = spaces(thorough);
    let n = cs.len() + reps.len();
    let rs = parallel(n, |i| {
        let page = Shared::<Page>::new(1);
        let out = Shared::<[u8; 4096]>::new(1);
        let (mut rp, mut re, mut work, mut fam, mut acc) = (0f64, 0f64, 0, 0, 0);
        for f in families(i, &cs, &reps, thorough) {
            match guarded(&page, &f, &out) {
                Ok((a, b, w, ok)) => {
                    rp = rp.max(a);
                    re = re.max(b);
                    work += w;
                    fam += 1;
                    acc += ok as u64;
                }
                Err(m) => return json!({"fail": {"msg": m, "case": f.what}}),
            }
        }
        json!({"parse": rp, "eval": re, "work": work, "families": fam, "accepted": acc, "fail": null})
    });
    let part = |name: &str, bound: String, r: &[Value]| {
        let max = |k: &str| r.iter().filter_map(|x| x[k].as_f64()).fold(0.0, f64::max);
        let sum = |k: &str| r.iter().filter_map(|x| x[k].as_u64()).sum::<u64>();
        json!({"phase": name, "bound": bound, "families": sum("families"), "accepted": sum("accepted"), "steps": sum("work"), "largest_growth_parsing": max("parse"), "largest_growth_evaluating": max("eval")})
    };
    let (a, b) = rs.split_at(cs.len());
    json!({
        "phases": [
            part("nesting", format!("all {} cycles of up to {} of {} nesting productions (and one more of the first 26) x {} forms, gone round to depths of up to {}", cs.len(), if thorough { 4 } else { 3 }, NESTING.len(), FORMS.len(), if thorough { 96 } else { 48 }), a),
            part("repetition", format!("all {} sequences of up to {} units of {} repeatable constructs x {} forms, repeated up to {} times", reps.len(), 3, REPEAT.len(), FORMS.len(), if thorough { 256 } else { 64 }), b),
        ],
        "left_out": left_out(&rs),
        "failures": rs.iter().filter(|r| !r["fail"].is_null()).map(|r| r["fail"].clone()).collect::<Vec<_>>(),
        "samples": (0..12).map(|i| { let f = families(i * n / 12, &cs, &reps, thorough); json!((f[i % f.len()].make)(6)) }).collect::<Vec<_>>(),
    })
}

pub fn one(v: &Value) -> Result<(), String> {
    let list = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let (cs, reps) = if v["cycle"].is_array() { (vec![list(&v["cycle"])], vec![]) } else { (vec![], vec![(v["repeat"].as_u64().unwrap() as usize, list(&v["units"]))]) };
    let (page, out) = (Shared::<Page>::new(1), Shared::<[u8; 4096]>::new(1));
    for f in families(0, &cs, &reps, true) {
        if f.what == *v {
            guarded(&page, &f, &out)?;
        }
    }
    Ok(())
}
