//! C20: every sequence of operations, up to a length, from the start of a process.
//!
//! The model: a result depends on the operation and on the present contents of the document it is
//! about. What the operation gives for these contents as the very first thing a process does is
//! computed once; in every history, every operation must give the same again.

use crate::pool::{describe, in_child, left_out, parallel, Shared};
use serde_json::{json, Value};
use serde_json_path::{JsonPath, JsonPathExt};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Parse(&'static str),
    Deserialize(&'static str),
    /// parse, evaluate, drop
    Once(&'static str, Doc),
    /// evaluate a query parsed on first use and kept since
    Kept(usize, Doc),
    KeptLocated(usize, Doc),
    /// evaluate a clone of it, made for this
    Cloned(usize, Doc),
    Display(usize),
    /// drop the changing document and build another in the same place
    Replace(usize),
    /// change the document where it is
    Edit(usize),
    /// drop all queries kept
    Forget,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Doc {
    Fixed,
    Changing,
}
use Doc::{Changing, Fixed};
use Op::*;

const KEPT: &[&str] = &["$.a", "$.b", "$..[?@.a==1]", "$..[?@.a==2]", "$[?length(@)==2]", "$[?match(@,'x.')||match(@.*,'a')]", "$[?search(@,'x.')]", "$[?count(@.*)>1,?same(@)==1]"];

const OPS: &[Op] = &[
    Parse("$.a"),
    Parse("$.b"),
    Parse("$['a']"),
    Parse("$[?@.a==1]"),
    Parse("$[?@.a==2]"),
    Parse("$[?length(@)==1]"),
    Parse("$[?length(@.*)==1]"),
    Parse("$[?match(@,'a')]"),
    Parse("$[?search(@,'a')]"),
    Parse("$[?nope(@)]"),
    Parse("$[?same(@)==1]"),
    Parse("$.a["),
    Parse("$.a "),
    Parse("$[?both(@.a,@.b)&&count(@.*)!=value(@.a)]"),
    Deserialize("$.b"),
    Deserialize("$.a["),
    Once("$.a", Changing),
    Once("$.b", Fixed),
    Once("$[?match(@,'x')]", Changing),
    Once("$[?search(@,'x')]", Changing),
    Once("$[?search(@,'y')]", Changing),
    Once("$[?match(@,'(')||length(@)==2]", Changing),
    Once("$[?first_of(@.*)==1]", Fixed),
    Kept(0, Changing),
    Kept(1, Changing),
    Kept(2, Changing),
    Kept(2, Fixed),
    KeptLocated(3, Changing),
    KeptLocated(2, Changing),
    Kept(4, Changing),
    Kept(5, Changing),
    Kept(6, Changing),
    KeptLocated(7, Fixed),
    Cloned(2, Fixed),
    Cloned(6, Changing),
    Display(5),
    Replace(0),
    Replace(1),
    Replace(2),
    Edit(0),
    Edit(1),
    Forget,
];

/// a query with all that can be left open
const WHOLE: &str = "$..a['b',\"c\",?!(@.a['b']==length($..c[1:2:3])||(match(@,'x\\u0041')&&!@[?(@>1e1)]))&&(count(@['a',*])>1)]";

/// further operations, done very often but not in all combinations: everything that starts like
/// the whole query and fails or not
fn extra() -> Vec<Op> {
    let mut v: Vec<Op> = (1..=WHOLE.len()).map(|i| Parse(&WHOLE[..i])).collect();
    // the same with something wrong after it
    v.extend((0..WHOLE.len()).filter(|i| "([?,:=|&'".contains(&WHOLE[*i..*i + 1])).map(|i| Parse(Box::leak(format!("{}\u{1}", &WHOLE[..=i]).into_boxed_str()))));
    v.extend([
        Parse("$[?(@.a)]"),
        Parse("$[?((((@.a==1))))||!((@.b))]"),
        Parse("$[?@[?@[?@[?@]]]]"),
        Parse("$[?first_of(@[?first_of(@.*)==1])==1]"),
        Parse("$[?(nope(@))]"),
        Parse("$[?(length(@.*)==1)]"),
        Parse("$[?(same(@,@)==1)]"),
        Parse("$[?(match(@,'(')==1)]"),
        Parse("$[9007199254740992]"),
        Parse("$[?(@[01])]"),
        Parse("$['\\ud800']"),
        Deserialize("$[?((@.a)"),
        Deserialize("$[?((@.a))]"),
        Once("$[?(@.a==1&&!(@.b==2))]", Fixed),
        Once("$..[?(@[?(@>1)])]", Changing),
        Once("$[?(match(@,'(')||search(@,'['))]", Changing),
        Once("$[0:1:0,9,-9,'none'].none[?none(@)]", Changing),
    ]);
    v
}

fn ops() -> &'static [Op] {
    static ALL: std::sync::OnceLock<Vec<Op>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| OPS.iter().copied().chain(extra()).collect())
}

const VERSIONS: usize = 3;

fn version(v: usize) -> Value {
    match v {
        0 => json!({"a": {"a": 1, "b": [1, 2]}, "b": ["xy", {"a": 2}], "c": "xy", "d": "x"}),
        1 => json!({"a": {"a": 2, "b": [1, 2]}, "b": ["xz", {"a": 1}], "c": "xz", "d": "y"}),
        _ => json!([{"a": 1}, "xy", [1, 2], "x", {"a": 2, "b": 1}]),
    }
}

struct World {
    fixed: Value,
    changing: Box<Value>,
    now: usize,
    kept: Vec<Option<JsonPath>>,
}

impl World {
    fn new(v: usize) -> Self {
        World {
            fixed: json!({"a": {"a": 1}, "b": [{"a": 1, "b": 2}, {"a": [1]}, 1, "a"], "c": [1, "xy"]}),
            changing: Box::new(version(v)),
            now: v,
            kept: KEPT.iter().map(|_| None).collect(),
        }
    }
    fn doc(&self, d: Doc) -> &Value {
        match d {
            Fixed => &self.fixed,
            Changing => &self.changing,
        }
    }
    fn kept(&mut self, q: usize) -> JsonPathRef {
        if self.kept[q].is_none() {
            self.kept[q] = Some(JsonPath::parse(KEPT[q]).unwrap());
        }
        self.kept[q].as_ref().unwrap() as *const JsonPath
    }
}

type JsonPathRef = *const JsonPath;

/// a value with its place in the document
fn nodes(d: &Value, v: &[&Value]) -> String {
    fn walk<'a>(d: &'a Value, p: String, f: &mut dyn FnMut(&'a Value, &str)) {
        f(d, &p);
        match d {
            Value::Array(a) => a.iter().enumerate().for_each(|(i, c)| walk(c, format!("{p}/{i}"), f)),
            Value::Object(o) => o.iter().for_each(|(k, c)| walk(c, format!("{p}/{k}"), f)),
            _ => {}
        }
    }
    let mut s = String::new();
    for n in v {
        let mut at = "elsewhere".to_string();
        walk(d, String::new(), &mut |c, p| {
            if std::ptr::eq(c, *n) {
                at = p.to_string();
            }
        });
        s += &format!("{at}={n} ");
    }
    s
}

fn parsed(r: Result<JsonPath, impl std::fmt::Display>) -> String {
    match r {
        Ok(p) => format!("{p} {p:?}"),
        Err(e) => format!("error {e}"),
    }
}

fn perform(w: &mut World, op: Op) -> String {
    match op {
        Parse(q) => parsed(JsonPath::parse(q)),
        Deserialize(q) => parsed(serde_json::from_value::<JsonPath>(json!(q))),
        Once(q, d) => match JsonPath::parse(q) {
            Ok(p) => nodes(w.doc(d), &w.doc(d).json_path(&p).all()),
            Err(e) => format!("error {e}"),
        },
        Kept(q, d) => {
            let p = unsafe { &*w.kept(q) };
            nodes(w.doc(d), &p.query(w.doc(d)).all())
        }
        KeptLocated(q, d) => {
            let p = unsafe { &*w.kept(q) };
            p.query_located(w.doc(d)).iter().map(|n| format!("{} {}", n.location(), nodes(w.doc(d), &[n.node()]))).collect()
        }
        Cloned(q, d) => {
            let p = unsafe { &*w.kept(q) }.clone();
            nodes(w.doc(d), &p.query(w.doc(d)).all())
        }
        Display(q) => unsafe { &*w.kept(q) }.to_string(),
        Replace(v) => {
            *w.changing = Value::Null;
            *w.changing = version(v);
            w.now = v;
            String::new()
        }
        Edit(v) => {
            // within the same allocations as far as possible
            match (w.changing.as_object_mut(), version(v)) {
                (Some(o), Value::Object(n)) if o.contains_key("d") => {
                    o["a"]["a"] = n["a"]["a"].clone();
                    o["b"][0] = n["b"][0].clone();
                    o["b"][1]["a"] = n["b"][1]["a"].clone();
                    o["c"] = n["c"].clone();
                    o["d"] = n["d"].clone();
                }
                (_, n) => *w.changing = n,
            }
            assert_eq!(*w.changing, version(v));
            w.now = v;
            String::new()
        }
        Forget => {
            w.kept.iter_mut().for_each(|k| *k = None);
            String::new()
        }
    }
}

const TEXT: usize = 1 << 15;

#[repr(C)]
struct Page {
    nodes: u64,
    failed: u64,
    len: u64,
    text: [u8; TEXT],
}

fn put(p: &mut Page, s: &str) {
    let n = s.len().min(TEXT);
    p.text[..n].copy_from_slice(&s.as_bytes()[..n]);
    p.len = n as u64;
}

fn get(p: &Page) -> String {
    String::from_utf8_lossy(&p.text[..p.len as usize]).into_owned()
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn attempt(w: &mut World, op: Op) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(w, op))).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panics: {m}")
    })
}

type Table = Vec<Vec<String>>;

/// what each operation gives in a fresh process, for each version of the changing document
fn table() -> Result<Table, String> {
    let page = Shared::<Page>::new(1);
    ops().iter()
        .map(|&op| {
            (0..VERSIONS)
                .map(|v| {
                    let st = in_child(|| {
                        quiet();
                        let t = attempt(&mut World::new(v), op);
                        put(&mut page.all()[0], &t);
                    });
                    if st != 0 {
                        return Err(format!("{op:?} as the first thing a process does: {}", describe(st)));
                    }
                    Ok(get(&page.all()[0]))
                })
                .collect()
        })
        .collect()
}

fn step(w: &mut World, t: &Table, history: &[usize], op: usize) -> Result<(), String> {
    let expected = &t[op][w.now];
    let got = attempt(w, ops()[op]);
    if got != *expected {
        return Err(format!("after {:?}, {:?} gives {got:?}, but in a fresh process it gives {expected:?}", history.iter().map(|&i| ops()[i]).collect::<Vec<_>>(), ops()[op]));
    }
    Ok(())
}

/// extend a history by every operation, each in a process forked from this one
fn extend(w: &mut World, t: &Table, page: &Shared<Page>, history: &mut Vec<usize>, depth: usize) -> bool {
    for op in 0..OPS.len() {
        let st = in_child(|| {
            page.all()[0].nodes += 1;
            match step(w, t, history, op) {
                Err(m) => {
                    history.push(op);
                    put(&mut page.all()[0], &json!({"msg": m, "history": history}).to_string());
                    page.all()[0].failed = 1;
                }
                Ok(()) if depth > 1 => {
                    unsafe { libc::alarm(0) };
                    history.push(op);
                    extend(w, t, page, history, depth - 1);
                }
                Ok(()) => {}
            }
        });
        let p = &mut page.all()[0];
        if st != 0 && p.failed == 0 {
            history.push(op);
            put(p, &json!({"msg": format!("after {:?}, {:?}: {}", &history[..history.len() - 1], OPS[op], describe(st)), "history": history}).to_string());
            p.failed = 1;
        }
        if p.failed != 0 {
            return false;
        }
    }
    true
}

fn named(h: &[usize]) -> Vec<String> {
    h.iter().map(|&i| format!("{:?}", ops()[i])).collect()
}

fn case(v: &Value) -> Value {
    let h: Vec<usize> = v["history"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    json!({"kind": "history", "history": h, "operations": if h.len() < 50 { json!(named(&h)) } else { json!(named(&h[h.len() - 10..])) }})
}

/// run one history from the start
fn replay(h: &[usize], t: &Table) -> Result<(), String> {
    let page = Shared::<Page>::new(1);
    let st = in_child(|| {
        quiet();
        let mut w = World::new(0);
        for (i, &op) in h.iter().enumerate() {
            if i % 200 == 0 {
                unsafe { libc::alarm(crate::pool::ALARM) };
            }
            if let Err(m) = step(&mut w, t, &h[i.saturating_sub(10)..i], op) {
                put(&mut page.all()[0], &m);
                page.all()[0].failed = 1;
                break;
            }
        }
    });
    if page.all()[0].failed != 0 {
        return Err(get(&page.all()[0]));
    }
    if st != 0 {
        return Err(describe(st));
    }
    Ok(())
}

/// histories that repeat: one operation many times, two in turn, all in turn
fn repeated(a: usize, b: usize, times: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![a; times], [a, b].repeat(times / 2)];
    for h in &mut v {
        h.push(b);
    }
    // the same with a change of the document between
    let i = OPS.iter().position(|o| *o == Edit(1)).unwrap();
    let mut h = vec![a; times];
    h.extend([i, a, b]);
    v.push(h);
    v
}

/// operations of one kind that all differ: what they parse, and what they evaluate it on
fn distinct(kind: usize, i: usize) -> (String, Value) {
    let words = json!([format!("a{i}"), format!("a{i}b"), format!("ba{i}"), format!("a{}", i + 1), "a"]);
    match kind {
        0 => (format!("$[?match(@,'a{i}b?')]"), words),
        1 => (format!("$[?search(@,'a{i}b?')]"), words),
        2 => (format!("$.n{i}"), json!({format!("n{i}"): i, format!("n{}", i + 1): "other"})),
        3 => (format!("$[{i}]"), json!([0, 1, 2, 3])),
        // the same query, with different expressions in the document
        4 => ("$[?match(@.s,@.p)]".into(), json!([{"s": format!("a{i}"), "p": format!("a{i}?")}, {"s": format!("a{}", i + 1), "p": format!("a{i}")}, {"s": "a", "p": "a("}])),
        5 => (format!("$[?f{i}(@)]"), json!([1])),
        6 => (format!("$.a[{i}"), json!([1])),
        7 => (format!("$[?@.x=='s{i}'||@.x=={i}]"), json!([{"x": format!("s{i}")}, {"x": i}, {"x": format!("s{}", i + 1)}, {"x": i + 1}])),
        // the same query, on documents of the same shape
        8 => ("$..[?@.x>@.y]".into(), json!([{"x": i % 7, "y": i % 5}, {"x": [{"x": i % 3, "y": i % 2}], "y": i}])),
        9 => (format!("$[{}:{}:{}]", i % 7, i % 11, i % 5 + 1), json!([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])),
        10 => ("$[?length(@)==3]".into(), json!(["x".repeat(i % 6), vec![1; i % 5], {"a": 1, "b": i, "c": 2}])),
        _ => (format!("$..['k{i}','k{}']", i + 1), json!({format!("k{i}"): {format!("k{}", i + 1): i}})),
    }
}
const KINDS: usize = 12;

fn one_distinct(kind: usize, i: usize) -> String {
    let (q, d) = distinct(kind, i);
    std::panic::catch_unwind(|| match JsonPath::parse(&q) {
        Ok(p) => format!("{p} {} {}", nodes(&d, &p.query(&d).all()), p.query_located(&d).locations().map(|l| l.to_string() + " ").collect::<String>()),
        Err(e) => format!("error {e}"),
    })
    .unwrap_or_else(|_| "panics".into())
}

/// all of some kinds, in an order that lets each come round again after every number of others
fn rounds(kinds: &[usize], n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..n {
        v.extend(kinds.iter().map(|&k| (k, i)));
    }
    let all = v.clone();
    v.extend(all.iter().copied());
    v.extend(all.iter().rev().copied());
    // the first again and again among the others
    for (j, x) in all.iter().enumerate() {
        v.push(*x);
        if j % 3 == 0 {
            v.push(all[j / 3]);
        }
    }
    v
}

/// returns how many operations there were
fn many_distinct(kinds: &[usize], n: usize) -> Result<usize, String> {
    let page = Shared::<Page>::new(1);
    let mut expected = std::collections::BTreeMap::new();
    for &k in kinds {
        for i in 0..n {
            let st = in_child(|| {
                quiet();
                put(&mut page.all()[0], &one_distinct(k, i));
            });
            if st != 0 {
                return Err(format!("{:?} as the first thing a process does: {}", distinct(k, i), describe(st)));
            }
            expected.insert((k, i), get(&page.all()[0]));
        }
    }
    let seq = rounds(kinds, n);
    page.all()[0].failed = 0;
    let st = in_child(|| {
        quiet();
        for (j, &(k, i)) in seq.iter().enumerate() {
            let got = one_distinct(k, i);
            if got != expected[&(k, i)] {
                put(&mut page.all()[0], &format!("after {j} operations that differ, {:?} gives {got:?}, but in a fresh process it gives {:?}", distinct(k, i), expected[&(k, i)]));
                page.all()[0].failed = 1;
                return;
            }
        }
    });
    if page.all()[0].failed != 0 {
        return Err(get(&page.all()[0]));
    }
    if st != 0 {
        return Err(describe(st));
    }
    Ok(seq.len())
}

/// a document whose texts, numbers and lists are changed where they are: the same addresses, and
/// for the texts the same number of bytes, with other contents
struct Place(Value);

const CONTENTS: usize = 8;
const LENGTHS: &[usize] = &[0, 1, 2, 3, 4, 6, 7, 8, 12, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 1000];

fn text(c: usize, n: usize) -> String {
    let fill = |x: &str| {
        let mut s = x.repeat(n / x.len());
        s += &"a".repeat(n - s.len());
        s
    };
    let mark = |at: usize| {
        let mut s = fill("a");
        if at < n {
            s.replace_range(at..at + 1, "b");
        }
        s
    };
    match c {
        0 => fill("a"),
        1 => fill("b"),
        2 => fill("é"),
        3 => fill("€"),
        4 => fill("😀"),
        5 => mark(0),
        6 => mark(n.saturating_sub(1)),
        _ => mark(n / 2),
    }
}

impl Place {
    fn new(n: usize) -> Self {
        let room = || Value::String(String::with_capacity(n + 64));
        let list = || Value::Array(Vec::with_capacity(16));
        // (the room is lost when values are cloned: no json! around them)
        let object = |ms: Vec<(&str, Value)>| Value::Object(ms.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        Place(object(vec![
            ("s", room()),
            ("t", room()),
            ("r", room()),
            ("n", json!(0)),
            ("l", list()),
            ("o", object(vec![("k", json!(0)), ("m", room())])),
            ("p", Value::Array(vec![room(), object(vec![("k", room())]), list()])),
        ]))
    }
    fn set(&mut self, c: usize, n: usize) {
        fn put(v: &mut Value, t: &str) {
            let Value::String(s) = v else { unreachable!() };
            let at = s.as_ptr();
            s.clear();
            s.push_str(t);
            assert_eq!(at, s.as_ptr());
        }
        fn fill(v: &mut Value, vs: impl Iterator<Item = Value>) {
            let Value::Array(a) = v else { unreachable!() };
            let at = a.as_ptr();
            a.clear();
            a.extend(vs);
            assert_eq!(at, a.as_ptr());
        }
        let d = &mut self.0;
        put(&mut d["s"], &text(c, n));
        put(&mut d["t"], &text((c + 3) % CONTENTS / 2, n));
        put(&mut d["r"], ["[ab]*.", "[^b]*.", "(a|b)*", "(.é)*.", ".*b.?x", "(a)|(b", "a{2,}.", "b.*|.é"][c]);
        d["n"] = json!(c % 3);
        fill(&mut d["l"], (0..3 + (c / 4) % 2).map(|i| json!((i + c) % 4)));
        d["o"]["k"] = if c % 4 == 3 { json!("a") } else { json!(c % 3) };
        put(&mut d["o"]["m"], &text(c / 2, n));
        put(&mut d["p"][0], &text((c + 1) % CONTENTS, n));
        put(&mut d["p"][1]["k"], &text(c ^ 1, n));
        fill(&mut d["p"][2], (0..c % 5).map(|i| json!({"k": (i + c) % 3})));
    }
}

fn in_place_queries(n: usize) -> Vec<String> {
    let mut v: Vec<String> = [
        "$[?match(@,$.r)]", "$[?search(@,$.r)]", "$[?match(@,'a*')||search(@,'b')]", "$..[?match(@,$.s)]", "$[?@==$.t]", "$[?@<$.t]", "$..[?@>=$.s]", "$[?length(@)==3]",
        "$[?count(@.*)==3]", "$[?count(@..*)>2]", "$[?value(@.k)==1]", "$..[?@.k>$.n]", "$.l[-1:]", "$[?$.l==@]", "$.p[?@.k==1||@[0].k==1]", "$..[?@.k]", "$[?same(@)==$.n]",
        "$[?first_of(@.*)==1]", "$[?both(@.k,@.m)]", "$.p[2][?@.k!=$.n]", "$..k", "$",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for l in [n, n / 2, n / 3, n / 4, n / 2 + n % 2, n / 3 + n % 3, n / 4 + n % 4] {
        v.push(format!("$..[?length(@)=={l}]"));
        // one text only, so that nothing else is looked at in between
        v.push(format!("$.o[?length($.s)=={l}]"));
    }
    v.extend(
        ["$.o[?match($.s,'a*')]", "$.o[?search($.s,'b')]", "$.o[?match($.o.m,$.r)]", "$.o[?$.s==$.t]", "$.o[?$.s<'b']", "$.o[?length($.l)==3]", "$.o[?count($.l[*])==3]", "$.o[?$.l[1]==1]", "$.o[?$.n==1]", "$.o[?$.l==$.p[2]]", "$.o[?value($.p[2][*].k)==0]"]
            .map(String::from),
    );
    v.push(format!("$..[?@=='{}']", text(1, n)));
    v.dedup();
    // a query that is refused gives the same error every time
    v
}

fn ask(d: &Place, p: &Result<JsonPath, serde_json_path::ParseError>) -> String {
    match p {
        Ok(p) => format!("{}| {}", nodes(&d.0, &p.query(&d.0).all()), p.query_located(&d.0).locations().map(|l| l.to_string() + " ").collect::<String>()),
        Err(e) => format!("error {e}"),
    }
}

/// a 64-bit digest, so that long results compare quickly
fn digest(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// every two contents after one another and back, one query alone and all of them
fn in_place(n: usize) -> Result<usize, String> {
    let qs = in_place_queries(n);
    let page = Shared::<Page>::new(1);
    let fresh = Shared::<u64>::new(qs.len() * CONTENTS);
    for c in 0..CONTENTS {
        for (i, q) in qs.iter().enumerate() {
            let st = in_child(|| {
                quiet();
                let mut d = Place::new(n);
                d.set(c, n);
                fresh.all()[i * CONTENTS + c] = digest(&ask(&d, &JsonPath::parse(q)));
            });
            if st != 0 {
                return Err(format!("{q} as the first thing a process does: {}", describe(st)));
            }
        }
    }
    let mut walk = vec![];
    for a in 0..CONTENTS {
        for b in 0..CONTENTS {
            walk.extend([a, b, a]);
        }
    }
    let mut done = 0;
    let sets: Vec<Vec<usize>> = (0..qs.len()).map(|i| vec![i]).chain([(0..qs.len()).collect()]).collect();
    for set in &sets {
        for keep in [true, false] {
            page.all()[0].failed = 0;
            let st = in_child(|| {
                quiet();
                let mut d = Place::new(n);
                let mut kept: Vec<_> = qs.iter().map(|q| JsonPath::parse(q)).collect();
                for (j, &c) in walk.iter().enumerate() {
                    d.set(c, n);
                    for &i in set {
                        if !keep {
                            kept[i] = JsonPath::parse(&qs[i]);
                        }
                        let got = ask(&d, &kept[i]);
                        if digest(&got) != fresh.all()[i * CONTENTS + c] {
                            let before = &walk[j.saturating_sub(2)..j];
                            let mut m = format!("{:?} on a document that was changed in place (texts of {n} bytes, contents {before:?} before, {c} now) gives {got:?}, which is not what a fresh process gives", qs[i]);
                            m.truncate(m.char_indices().map(|(i, _)| i).take_while(|&i| i < TEXT).last().unwrap_or(0));
                            put(&mut page.all()[0], &m);
                            page.all()[0].failed = 1;
                            return;
                        }
                    }
                }
            });
            if page.all()[0].failed != 0 {
                return Err(get(&page.all()[0]));
            }
            if st != 0 {
                return Err(format!("queries {set:?} on a document of texts of {n} bytes that is changed in place: {}", describe(st)));
            }
            done += walk.len() * set.len();
        }
    }
    Ok(done)
}

/// every kind alone, every two together
fn kinds() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..KINDS).map(|k| vec![k]).collect();
    v.extend((0..KINDS).flat_map(|a| (a + 1..KINDS).map(move |b| vec![a, b])));
    v.push((0..KINDS).collect());
    v
}

/// more often than any small counter can tell apart
const WRAP: usize = 70_000;

/// what compiles regular expressions each time takes too long for that
fn often(i: usize, thorough: bool) -> usize {
    let op = ops()[i];
    if i >= OPS.len() {
        return if thorough { WRAP / 3 } else { WRAP / 10 };
    }
    let slow = match op {
        Once(q, _) => q.contains("match(") || q.contains("search("),
        Kept(q, _) | KeptLocated(q, _) | Cloned(q, _) => KEPT[q].contains("match(") || KEPT[q].contains("search("),
        _ => false,
    };
    match (slow, thorough) {
        (true, false) => WRAP / 20,
        (true, true) => WRAP / 4,
        (false, true) => 2 * WRAP,
        _ => WRAP,
    }
}

/// one operation very often, then every other
fn then_all(op: usize, times: usize) -> Vec<usize> {
    let mut h = vec![op; times];
    // backwards first, so that what is like it comes while its effects are fresh
    h.extend((0..ops().len()).rev());
    h.extend(0..ops().len());
    h
}

pub fn run(thorough: bool) -> Value {
    let n = OPS.len();
    let all = ops().len();
    let depth = if thorough { 4 } else { 3 };
    let times = if thorough { 1500 } else { 300 };
    let t = match table() {
        Ok(t) => t,
        Err(m) => return json!({"phases": [], "failures": [{"msg": m, "case": {"kind": "history", "history": []}}], "samples": []}),
    };
    let rs = parallel(n * n, |i| {
        let (a, b) = (i / n, i % n);
        let page = Shared::<Page>::new(1);
        quiet();
        if let Err(m) = replay(&[a, b], &t) {
            return json!({"nodes": 2, "long": 0, "fail": {"msg": m, "case": case(&json!({"history": [a, b]}))}});
        }
        // the first two operations in this process, the rest in forks of it
        let mut w = World::new(0);
        let mut h = vec![];
        for op in [a, b] {
            let r = step(&mut w, &t, &h, op);
            h.push(op);
            page.all()[0].nodes += 1;
            if let Err(m) = r {
                return json!({"nodes": 1, "long": 0, "fail": {"msg": m, "case": case(&json!({"history": h}))}});
            }
        }
        if !extend(&mut w, &t, &page, &mut h, depth - 2) {
            let f: Value = serde_json::from_str(&get(&page.all()[0])).unwrap();
            return json!({"nodes": page.all()[0].nodes, "long": 0, "fail": {"msg": f["msg"], "case": case(&f)}});
        }
        let mut long = 0;
        for h in repeated(a, b, times) {
            if let Err(m) = replay(&h, &t) {
                return json!({"nodes": 0, "long": 0, "fail": {"msg": m, "case": case(&json!({"history": h}))}});
            }
            long += h.len();
        }
        json!({"nodes": page.all()[0].nodes, "long": long, "fail": null})
    });
    let ks = kinds();
    let each = if thorough { 2000 } else { 400 };
    let ds = parallel(ks.len() + all, |i| {
        let (r, what) = if i < ks.len() {
            (many_distinct(&ks[i], each), json!({"kind": "history", "distinct": ks[i], "each": each}))
        } else {
            let op = i - ks.len();
            let times = often(op, thorough);
            (replay(&then_all(op, times), &t).map(|_| times + 2 * all), json!({"kind": "history", "operation": op, "times": times, "name": format!("{:?}", ops()[op])}))
        };
        match r {
            Ok(k) => json!({"operations": k, "fail": null}),
            Err(m) => json!({"operations": 0, "fail": {"msg": m, "case": what}}),
        }
    });
    let lengths: Vec<usize> = if thorough { (0..=48).chain([49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 1000]).collect() } else { LENGTHS.to_vec() };
    let es = parallel(lengths.len(), |i| match in_place(lengths[lengths.len() - 1 - i]) {
        Ok(k) => json!({"operations": k, "fail": null}),
        Err(m) => json!({"operations": 0, "fail": {"msg": m, "case": {"kind": "history", "in_place": lengths[lengths.len() - 1 - i]}}}),
    });
    let (da, db) = ds.split_at(ks.len());
    let count = |rs: &[Value]| rs.iter().map(|r| r["operations"].as_u64().unwrap_or(0)).sum::<u64>();
    let sum = |k: &str| rs.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let distinct: std::collections::BTreeSet<&String> = t.iter().flatten().collect();
    json!({
        "phases": [
            {"phase": "all histories", "bound": format!("all sequences of up to {depth} of {n} operations, each result compared with that of a fresh process"), "operations": sum("nodes"), "configurations": (1..=depth as u32).map(|d| n.pow(d)).sum::<usize>(), "distinct_results": distinct.len()},
            {"phase": "repetition", "bound": format!("every operation {times} times, every two in turn {times} times, then every other"), "operations": sum("long"), "configurations": 3 * n * n},
            {"phase": "many that differ", "bound": format!("{} sets of {KINDS} kinds of operations, {each} different ones of each, in four rounds", ks.len()), "operations": count(da), "configurations": ks.len()},
            {"phase": "very often", "bound": format!("each operation {} times, those that compile regular expressions {} times, {} further ones {} times, and after it every other", often(0, thorough), often(OPS.iter().position(|o| *o == Once("$[?match(@,'x')]", Changing)).unwrap(), thorough), all - n, often(all - 1, thorough)), "operations": count(db), "configurations": all},
            {"phase": "changed in place", "bound": format!("documents with texts of {} lengths, numbers and lists changed where they are among {CONTENTS} contents: every two contents after one another and back, {} queries alone and in turn, kept and parsed anew", lengths.len(), in_place_queries(24).len()), "operations": count(&es), "configurations": lengths.len() * 2 * (in_place_queries(24).len() + 1)},
        ],
        "left_out": left_out(&rs) + left_out(&ds) + left_out(&es),
        "failures": rs.iter().chain(&ds).chain(&es).filter(|r| !r["fail"].is_null()).map(|r| r["fail"].clone()).collect::<Vec<_>>(),
        "samples": (0..12).map(|i| json!(named(&[i * 3 % n, i * 7 % n, i * 11 % n]))).collect::<Vec<_>>(),
    })
}

pub fn one(v: &Value) -> Result<(), String> {
    if let Some(ks) = v["distinct"].as_array() {
        let ks: Vec<usize> = ks.iter().map(|x| x.as_u64().unwrap() as usize).collect();
        return many_distinct(&ks, v["each"].as_u64().unwrap() as usize).map(|_| ());
    }
    if let Some(op) = v["operation"].as_u64() {
        return replay(&then_all(op as usize, v["times"].as_u64().unwrap() as usize), &table()?);
    }
    if let Some(n) = v["in_place"].as_u64() {
        return in_place(n as usize).map(|_| ());
    }
    let h: Vec<usize> = v["history"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    replay(&h, &table()?)
}
