//! C32: the types of parameters and results of custom functions convert as the type system says.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{kinds, tuple};
use crate::props::nodes::all_nodes;
use serde_json::{json, Value};
use serde_json_path::functions::{ConversionError, JsonPathValue, LogicalType, NodesType, ValueType};
use serde_json_path::{JsonPath, NodeList};
use std::sync::{Arc, LazyLock};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// what is passed about, in the model: nodes are numbered in document order
#[derive(Clone, PartialEq, Debug)]
enum What {
    Value(Value),
    Node(usize),
    Nothing,
    Nodes(Vec<usize>),
    Truth(bool),
}

/// in which Rust type it is held
#[derive(Clone, Copy, PartialEq, Debug)]
enum Held {
    Any,
    Value,
    Nodes,
    Logical,
    Bool,
    Vec,
    List,
}

enum Real<'d> {
    Any(JsonPathValue<'d>),
    Value(ValueType<'d>),
    Nodes(NodesType<'d>),
    Logical(LogicalType),
    Bool(bool),
    Vec(Vec<&'d Value>),
    List(NodeList<'d>),
}

const OPS: &[&str] = &[
    "to ValueType", "to NodesType", "to LogicalType", "to JsonPathValue", "to bool", "all", "into_iter", "deref", "take", "clone", "to NodeList",
];

/// the type system: RFC 9535, 2.4.1 to 2.4.3; None: there is no such operation; Err: a refusal
fn step(op: &str, h: Held, w: &What) -> Option<Result<(Held, What), &'static str>> {
    use Held::*;
    Some(Ok(match (op, h, w) {
        ("to ValueType", Any, What::Value(_) | What::Node(_) | What::Nothing) => (Value, w.clone()),
        ("to ValueType", Any, What::Nodes(_)) => return Some(Err("NodesType to ValueType")),
        ("to ValueType", Any, What::Truth(_)) => return Some(Err("LogicalType to ValueType")),
        ("to NodesType", Any, What::Nodes(_)) => (Nodes, w.clone()),
        ("to NodesType", Any, What::Node(n)) => (Nodes, What::Nodes(vec![*n])),
        ("to NodesType", Any, What::Nothing) => (Nodes, What::Nodes(vec![])),
        ("to NodesType", Any, What::Value(_)) => return Some(Err("a literal value to NodesType")),
        ("to NodesType", Any, What::Truth(_)) => return Some(Err("LogicalType to NodesType")),
        ("to NodesType", Vec | List, _) => (Nodes, w.clone()),
        ("to LogicalType", Any, What::Truth(_)) => (Logical, w.clone()),
        ("to LogicalType", Any, What::Nodes(l)) => (Logical, What::Truth(!l.is_empty())),
        ("to LogicalType", Any, What::Node(_)) => (Logical, What::Truth(true)),
        ("to LogicalType", Any, What::Nothing) => (Logical, What::Truth(false)),
        ("to LogicalType", Any, What::Value(_)) => return Some(Err("ValueType to LogicalType")),
        ("to LogicalType", Bool, _) => (Logical, w.clone()),
        ("to JsonPathValue", Value | Nodes | Logical, _) => (Any, w.clone()),
        ("to bool", Logical, _) => (Bool, w.clone()),
        ("all" | "into_iter", Nodes | List, _) => (Vec, w.clone()),
        ("deref" | "take", Nodes, _) => (List, w.clone()),
        ("clone", Value | Nodes | Logical | List, _) => (h, w.clone()),
        ("to NodeList", Vec, _) => (List, w.clone()),
        _ => return None,
    }))
}

fn apply<'d>(op: &str, r: Real<'d>) -> Result<Real<'d>, ConversionError> {
    Ok(match (op, r) {
        ("to ValueType", Real::Any(j)) => Real::Value(j.try_into()?),
        ("to NodesType", Real::Any(j)) => Real::Nodes(j.try_into()?),
        ("to NodesType", Real::Vec(v)) => Real::Nodes(v.into()),
        ("to NodesType", Real::List(v)) => Real::Nodes(v.into()),
        ("to LogicalType", Real::Any(j)) => Real::Logical(j.try_into()?),
        ("to LogicalType", Real::Bool(b)) => Real::Logical(b.into()),
        ("to JsonPathValue", Real::Value(v)) => Real::Any(v.into()),
        ("to JsonPathValue", Real::Nodes(v)) => Real::Any(v.into()),
        ("to JsonPathValue", Real::Logical(v)) => Real::Any(v.into()),
        ("to bool", Real::Logical(l)) => Real::Bool(l.into()),
        ("all", Real::Nodes(n)) => Real::Vec(n.all()),
        ("all", Real::List(n)) => Real::Vec(n.all()),
        ("into_iter", Real::Nodes(n)) => Real::Vec(n.into_iter().collect()),
        ("into_iter", Real::List(n)) => Real::Vec(n.into_iter().collect()),
        ("deref", Real::Nodes(n)) => Real::List((*n).clone()),
        ("take", Real::Nodes(mut n)) => {
            let l = std::mem::take(&mut *n);
            assert!(n.is_empty() && n == NodesType::default(), "what is left of a list that was taken is not empty");
            Real::List(l)
        }
        ("clone", Real::Value(v)) => Real::Value(v.clone()),
        ("clone", Real::Nodes(v)) => Real::Nodes(v.clone()),
        ("clone", Real::Logical(v)) => Real::Logical(v.clone()),
        ("clone", Real::List(v)) => Real::List(v.clone()),
        ("to NodeList", Real::Vec(v)) => Real::List(v.into()),
        _ => unreachable!("{op}"),
    })
}

fn same_nodes(l: &[&Value], want: &[usize], ns: &[&Value]) -> bool {
    l.len() == want.len() && l.iter().zip(want).all(|(v, i)| std::ptr::eq(*v, ns[*i]))
}

/// what is held is what the model says, by everything that can be asked of it
fn holds(r: &Real, h: Held, w: &What, ns: &[&Value]) -> bool {
    match (r, h, w) {
        (Real::Any(JsonPathValue::Value(v)), Held::Any, What::Value(x)) => v == x,
        (Real::Any(JsonPathValue::Node(v)), Held::Any, What::Node(i)) => std::ptr::eq(*v, ns[*i]),
        (Real::Any(JsonPathValue::Nothing), Held::Any, What::Nothing) => true,
        (Real::Any(JsonPathValue::Nodes(l)), Held::Any, What::Nodes(x)) => same_nodes(&l.iter().copied().collect::<Vec<_>>(), x, ns),
        (Real::Any(JsonPathValue::Logical(l)), Held::Any, What::Truth(b)) => (*l == LogicalType::True) == *b,
        (Real::Value(v), Held::Value, w) => {
            let seen = match (v, w) {
                (ValueType::Value(v), What::Value(x)) => v == x,
                (ValueType::Node(v), What::Node(i)) => std::ptr::eq(*v, ns[*i]),
                (ValueType::Nothing, What::Nothing) => true,
                _ => false,
            };
            seen && v.is_nothing() == (*w == What::Nothing)
                && match w {
                    What::Value(x) => v.as_value() == Some(x),
                    What::Node(i) => v.as_value().is_some_and(|v| std::ptr::eq(v, ns[*i])),
                    _ => v.as_value().is_none(),
                }
        }
        (Real::Nodes(l), Held::Nodes, What::Nodes(x)) => {
            same_nodes(&l.iter().copied().collect::<Vec<_>>(), x, ns)
                && l.len() == x.len()
                && l.is_empty() == x.is_empty()
                && l.first().map(|v| v as *const Value) == x.first().map(|i| ns[*i] as *const Value)
                && l.last().map(|v| v as *const Value) == x.last().map(|i| ns[*i] as *const Value)
                && (0..=x.len()).all(|k| l.get(k).map(|v| v as *const Value) == x.get(k).map(|i| ns[*i] as *const Value))
        }
        (Real::Logical(l), Held::Logical, What::Truth(b)) => *l == if *b { LogicalType::True } else { LogicalType::False },
        (Real::Bool(x), Held::Bool, What::Truth(b)) => x == b,
        (Real::Vec(l), Held::Vec, What::Nodes(x)) => same_nodes(l, x, ns),
        (Real::List(l), Held::List, What::Nodes(x)) => same_nodes(&l.iter().copied().collect::<Vec<_>>(), x, ns),
        _ => false,
    }
}

fn start<'d>(w: &What, ns: &[&'d Value]) -> Real<'d> {
    Real::Any(match w {
        What::Value(v) => JsonPathValue::Value(v.clone()),
        What::Node(i) => JsonPathValue::Node(ns[*i]),
        What::Nothing => JsonPathValue::Nothing,
        What::Nodes(l) => JsonPathValue::Nodes(l.iter().map(|i| ns[*i]).collect::<Vec<_>>().into()),
        What::Truth(true) => JsonPathValue::Logical(LogicalType::True),
        What::Truth(false) => JsonPathValue::Logical(LogicalType::False),
    })
}

static LISTED: LazyLock<bool> = LazyLock::new(|| std::env::var("MC_KNOWN").is_ok_and(|v| v.split(',').any(|k| k == FINDING)));
const FINDING: &str = "logical-to-value-message";

/// the message of a refusal names both types, in the right order
fn refused(e: &ConversionError, why: &str, st: &mut Stats) -> Verdict {
    let m = e.to_string();
    if m == format!("attempted to convert {why}") || m == format!("cannot convert {why}") {
        return Ok(());
    }
    if why == "LogicalType to ValueType" && m == "attempted to convert NodesType to ValueType" && *LISTED {
        st.class(FINDING);
        return Ok(());
    }
    Err(format!("the refusal to convert {why} says {m:?}"))
}

fn what_of(x: &Value) -> What {
    match x["kind"].as_str().unwrap() {
        "value" => What::Value(x["of"].clone()),
        "node" => What::Node(x["of"].as_u64().unwrap() as usize),
        "nodes" => What::Nodes(x["of"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize).collect()),
        "truth" => What::Truth(x["of"].as_bool().unwrap()),
        _ => What::Nothing,
    }
}

fn json_of(w: &What) -> Value {
    match w {
        What::Value(v) => json!({"kind": "value", "of": v}),
        What::Node(i) => json!({"kind": "node", "of": i}),
        What::Nodes(l) => json!({"kind": "nodes", "of": l}),
        What::Truth(b) => json!({"kind": "truth", "of": b}),
        What::Nothing => json!({"kind": "nothing"}),
    }
}

/// all chains of up to `depth` conversions
pub fn judge_chains(doc: &Value, w: &What, depth: usize, st: &mut Stats) -> Verdict {
    let nodes = all_nodes(doc);
    let ns: Vec<&Value> = nodes.iter().map(|n| n.1).collect();
    let mut todo: Vec<(Vec<&str>, Held, What)> = vec![(vec![], Held::Any, w.clone())];
    while let Some((chain, h, now)) = todo.pop() {
        st.states += 1;
        if chain.len() == depth {
            continue;
        }
        for op in OPS {
            let Some(next) = step(op, h, &now) else { continue };
            // what was converted cannot be used again: from the start
            let mut r = start(w, &ns);
            for c in &chain {
                r = apply(c, r).map_err(|e| format!("{chain:?} of {w:?}: {c} is refused now: {e}"))?;
            }
            st.transitions += 1;
            st.traces += 1;
            match (apply(op, r), next) {
                (Ok(r), Ok((h, x))) => {
                    ensure!(holds(&r, h, &x, &ns), "{chain:?} and then {op} of {w:?} does not give {x:?}");
                    let mut c = chain.clone();
                    c.push(op);
                    todo.push((c, h, x));
                }
                (Err(e), Err(why)) => refused(&e, why, st)?,
                (Ok(_), Err(why)) => return Err(format!("{chain:?} of {w:?}: {op} is to be refused ({why})")),
                (Err(e), Ok(x)) => return Err(format!("{chain:?} of {w:?}: {op} is refused ({e}), and gives {x:?}")),
            }
        }
    }
    st.class(match w {
        What::Value(_) => "from a value",
        What::Node(_) => "from a node",
        What::Nothing => "from nothing",
        What::Nodes(_) => "from nodes",
        What::Truth(_) => "from a truth value",
    });
    Ok(())
}

/// equality of each type, between two
pub fn judge_equal(doc: &Value, a: &What, b: &What, st: &mut Stats) -> Verdict {
    let nodes = all_nodes(doc);
    let ns: Vec<&Value> = nodes.iter().map(|n| n.1).collect();
    let mut check = |got: (bool, bool, bool), want: bool, what: &str| -> Verdict {
        st.traces += 1;
        ensure!(got == (want, want, !want), "{what} {a:?} and {b:?} are{} equal", if want { " not" } else { "" });
        Ok(())
    };
    macro_rules! eq {
        ($t:ty, $want:expr) => {{
            let (x, y) = (start(a, &ns), start(b, &ns));
            let (Real::Any(x), Real::Any(y)) = (x, y) else { unreachable!() };
            if let (Ok(x), Ok(y)) = (<$t>::try_from(x), <$t>::try_from(y)) {
                check((x == y, y == x, x != y), $want, stringify!($t))?;
            }
        }};
    }
    let list = |w: &What| -> Vec<&Value> {
        match w {
            What::Nodes(l) => l.iter().map(|i| ns[*i]).collect(),
            What::Node(i) => vec![ns[*i]],
            _ => vec![],
        }
    };
    match (a, b) {
        (What::Value(x), What::Value(y)) => eq!(ValueType, x == y),
        (What::Node(x), What::Node(y)) => eq!(ValueType, ns[*x] == ns[*y]),
        (What::Nothing, What::Nothing) => eq!(ValueType, true),
        (What::Nothing, What::Value(_) | What::Node(_)) | (What::Value(_) | What::Node(_), What::Nothing) => eq!(ValueType, false),
        _ => {}
    }
    eq!(NodesType, list(a) == list(b));
    let truth = |w: &What| match w {
        What::Truth(b) => *b,
        What::Nodes(l) => !l.is_empty(),
        What::Nothing => false,
        _ => true,
    };
    eq!(LogicalType, truth(a) == truth(b));
    Ok(())
}

/// every type that turns into a JSON value turns into a ValueType of that value
pub fn judge_from(st: &mut Stats) -> Verdict {
    macro_rules! from {
        ($($e:expr),* $(,)?) => {$(
            st.traces += 1;
            let want: Value = Value::from($e);
            let v = ValueType::from($e);
            ensure!(v == ValueType::Value(want.clone()) && v.as_value() == Some(&want) && !v.is_nothing(), "ValueType::from({}) is {v:?}", stringify!($e));
            let v: ValueType = $e.into();
            ensure!(matches!(&v, ValueType::Value(x) if *x == want), "{}.into() is {v:?}", stringify!($e));
        )*};
    }
    from!(true, false, 0u8, 255u8, -128i8, u16::MAX, i16::MIN, u32::MAX, i32::MIN, u64::MAX, 0u64, i64::MIN, i64::MAX, usize::MAX, isize::MIN, 1.5f32, -0.0f64, 1e300f64, f64::NAN, f64::INFINITY);
    from!("", "a", "é😀\u{0}", String::from("x"), std::borrow::Cow::Borrowed("b"), ());
    from!(vec![1, 2], Vec::<u8>::new(), vec!["a"], vec![json!(null)], &[1, 2][..], Some(1), None::<u8>, Some("a"), serde_json::Map::new(), serde_json::Number::from(7));
    for v in kinds() {
        from!(v.clone(), vec![v.clone(), v.clone()], [("k".to_string(), v.clone())].into_iter().collect::<serde_json::Map<_, _>>());
    }
    for b in [false, true] {
        let l = LogicalType::from(b);
        ensure!(bool::from(l.clone()) == b && (l == LogicalType::True) == b && (l == LogicalType::False) != b, "LogicalType::from({b}) is {l:?}");
    }
    ensure!(ValueType::default().is_nothing() && matches!(ValueType::default(), ValueType::Nothing), "the default ValueType is something");
    ensure!(LogicalType::default() == LogicalType::False && !bool::from(LogicalType::default()), "the default LogicalType is true");
    ensure!(NodesType::default().is_empty() && NodesType::default().all().is_empty(), "the default NodesType is not empty");
    Ok(())
}

/// from the list of a query
pub fn judge_list(q: &str, doc: &Value, st: &mut Stats) -> Verdict {
    let p = JsonPath::parse(q).map_err(|e| format!("valid query {q:?} is rejected: {e}"))?;
    let l = p.query(doc);
    let want: Vec<*const Value> = l.iter().map(|v| *v as *const Value).collect();
    let t = NodesType::from(l.clone());
    st.traces += 4;
    let ptrs = |v: Vec<&Value>| v.into_iter().map(|v| v as *const Value).collect::<Vec<_>>();
    ensure!(ptrs(t.clone().all()) == want, "all() of a NodesType from {q:?} differs from the list");
    ensure!(ptrs(t.clone().into_iter().collect()) == want, "into_iter() of a NodesType from {q:?} differs from the list");
    ensure!(ptrs(t.iter().copied().collect()) == want, "iter() of a NodesType from {q:?} differs from the list");
    ensure!(t == NodesType::from(l.clone().all()) && *t == l, "a NodesType from {q:?} is not equal to one of the same nodes");
    Ok(())
}

fn run(cx: &mut Ctx, doc: &Value, w: &What, depth: usize) {
    cx.case(&|| Case::new("type chains", "").doc(doc).x(json!({"of": json_of(w), "depth": depth})), &mut |st| judge_chains(doc, w, depth, st));
}

pub fn c32(thorough: bool) -> Vec<Phase> {
    let depth = if thorough { 10 } else { 8 };
    let docs = Arc::new(vec![json!([1, [1], 1]), json!({"a": null, "b": {"a": false}}), json!(0), json!(["", "a", {}, []])]);
    let mut ph = vec![];
    {
        let docs = docs.clone();
        ph.push(phase(
            "chains",
            format!("from every kind of value, node, lists of up to 3 nodes, nothing and both truth values: all chains of up to {depth} of {} conversions", OPS.len()),
            docs.len() * 3,
            move |u, cx| {
                let d = &docs[u % docs.len()];
                let n = all_nodes(d).len();
                match u / docs.len() {
                    0 => {
                        for w in kinds().into_iter().map(What::Value).chain((0..n).map(What::Node)).chain([What::Nothing, What::Truth(true), What::Truth(false)]) {
                            run(cx, d, &w, depth);
                        }
                    }
                    1 => {
                        for k in 0..=2 {
                            for i in 0..n.pow(k as u32) {
                                run(cx, d, &What::Nodes(tuple(i, k, n)), depth);
                            }
                        }
                    }
                    _ => {
                        for i in 0..n.pow(3) {
                            run(cx, d, &What::Nodes(tuple(i, 3, n)), depth);
                        }
                        for k in (4..70).chain(crate::gen::powers(1 << 12)) {
                            run(cx, d, &What::Nodes((0..k).map(|i| i * i % n).collect()), 4);
                        }
                    }
                }
            },
        ));
    }
    {
        let docs = docs.clone();
        ph.push(phase("equality", "all pairs of values, nodes, lists of up to 2 nodes, nothing and truth values", docs.len(), move |u, cx| {
            let d = &docs[u];
            let n = all_nodes(d).len();
            let mut all: Vec<What> = kinds().into_iter().map(What::Value).chain((0..n).map(What::Node)).chain([What::Nothing, What::Truth(true), What::Truth(false)]).collect();
            for k in 0..=2 {
                all.extend((0..n.pow(k as u32)).map(|i| What::Nodes(tuple(i, k, n))));
            }
            for a in &all {
                for b in &all {
                    cx.case(&|| Case::new("type equality", "").doc(d).x(json!([json_of(a), json_of(b)])), &mut |st| judge_equal(d, a, b, st));
                }
            }
        }));
    }
    ph.push(phase("made of other types", "every type that turns into a JSON value; booleans; defaults", 1, move |_, cx| {
        cx.case(&|| Case::new("type from", ""), &mut judge_from);
    }));
    {
        let docs = Arc::new(crate::gen::docs(if thorough { 6 } else { 5 }, &["a", "b"], &[json!(1), json!("a")]));
        let qs = ["$", "$.*", "$..*", "$.a", "$[0]", "$[*,*]", "$[::-1]", "$..[?@==1]", "$.zz"];
        ph.push(phase("lists of queries", format!("{} queries x {} documents", qs.len(), docs.len()), qs.len(), move |u, cx| {
            for d in docs.iter() {
                cx.case(&|| Case::new("type list", qs[u]).doc(d), &mut |st| judge_list(qs[u], d, st));
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    match c.kind.as_str() {
        "type chains" => judge_chains(&c.doc, &what_of(&c.x["of"]), c.x["depth"].as_u64().unwrap() as usize, st),
        "type equality" => judge_equal(&c.doc, &what_of(&c.x[0]), &what_of(&c.x[1]), st),
        "type list" => judge_list(&c.q, &c.doc, st),
        _ => judge_from(st),
    }
}
