//! Functions: signatures, the model of the standard functions, and the bodies of the custom
//! functions registered with the library (shared by the registered function and the model, as the
//! property under test is what a function is given and what becomes of its result).

use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::LazyLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    V,
    N,
    L,
}

/// set in the binary that registers functions with the names of built-in ones
pub static OVERRIDDEN: AtomicBool = AtomicBool::new(false);

type Sig = (Vec<Ty>, Ty);

fn sig(ps: &str, r: char) -> Sig {
    let t = |c| match c {
        'v' => Ty::V,
        'n' => Ty::N,
        'l' => Ty::L,
        _ => unreachable!(),
    };
    (ps.chars().map(t).collect(), t(r))
}

static STANDARD: LazyLock<HashMap<&'static str, Sig>> = LazyLock::new(|| {
    [
        ("length", sig("v", 'v')),
        ("count", sig("n", 'v')),
        ("value", sig("n", 'v')),
        ("match", sig("vv", 'l')),
        ("search", sig("vv", 'l')),
    ]
    .into()
});
static CUSTOM: LazyLock<HashMap<&'static str, Sig>> =
    LazyLock::new(|| crate::custom::TABLE.iter().map(|(n, p, r)| (*n, sig(p, *r))).collect());
#[cfg(feature = "overrides")]
static OVER: LazyLock<HashMap<&'static str, Sig>> =
    LazyLock::new(|| crate::overrides::TABLE.iter().map(|(n, p, r)| (*n, sig(p, *r))).collect());

pub fn signature(name: &str) -> Option<Sig> {
    #[cfg(feature = "overrides")]
    if let Some(s) = OVER.get(name) {
        return Some(s.clone());
    }
    CUSTOM.get(name).or_else(|| STANDARD.get(name)).cloned()
}

pub fn is_builtin(name: &str) -> bool {
    STANDARD.contains_key(name) && !(OVERRIDDEN.load(Ordering::Relaxed))
}

/// a value of one of JSONPath's function types
#[derive(Clone, Debug)]
pub enum Fv<'a> {
    Nothing,
    Val(Value),
    Node(&'a Value),
    Nodes(Vec<&'a Value>),
    Logical(bool),
}

impl<'a> Fv<'a> {
    pub fn value(&self) -> Option<&Value> {
        match self {
            Fv::Val(v) => Some(v),
            Fv::Node(v) => Some(v),
            _ => None,
        }
    }
}

fn enc(a: &Fv) -> Value {
    match a {
        Fv::Nothing => json!({"nothing": true}),
        Fv::Val(v) => json!({"val": v}),
        // whether a value is held or borrowed is no part of what a function is given
        Fv::Node(v) => json!({"val": v}),
        Fv::Nodes(v) => json!({"nodes": v}),
        Fv::Logical(b) => json!({"logical": b}),
    }
}

thread_local! {
    /// the calls of custom functions and what they were given, while recording
    static CALLS: std::cell::RefCell<Option<Vec<(String, Value)>>> = const { std::cell::RefCell::new(None) };
}

pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<(String, Value)>) {
    CALLS.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    let mut v = CALLS.with(|c| c.borrow_mut().take()).unwrap();
    v.sort_by_cached_key(|(n, a)| format!("{n}{a}"));
    v.dedup();
    (r, v)
}

/// what the custom function `name` returns, given `args`
pub fn body<'a>(name: &str, ret: Ty, mut args: Vec<Fv<'a>>) -> Fv<'a> {
    CALLS.with(|c| {
        if let Some(v) = c.borrow_mut().as_mut() {
            v.push((name.to_string(), args.iter().map(enc).collect()));
        }
    });
    match ret {
        Ty::V => {
            if args.len() == 1 {
                match args.pop().unwrap() {
                    // the node, value or nothing it was given
                    a @ (Fv::Nothing | Fv::Val(_) | Fv::Node(_)) => return a,
                    // the first node
                    Fv::Nodes(ns) => return ns.first().map_or(Fv::Nothing, |n| Fv::Node(n)),
                    a @ Fv::Logical(_) => args.push(a),
                }
            }
            Fv::Val(json!([name, args.iter().map(enc).collect::<Vec<_>>()]))
        }
        Ty::N => {
            let mut out = vec![];
            for a in args {
                match a {
                    Fv::Nodes(ns) => out.extend(ns),
                    Fv::Node(n) => out.push(n),
                    _ => {}
                }
            }
            out.reverse();
            Fv::Nodes(out)
        }
        Ty::L => {
            let mut b = args.is_empty();
            for (i, a) in args.iter().enumerate() {
                b ^= match a {
                    Fv::Nothing => false,
                    Fv::Val(v) => !v.is_null(),
                    Fv::Node(v) => !v.is_null() && (i == 0 || !v.is_number()),
                    Fv::Nodes(ns) => ns.len() % 2 == 1,
                    Fv::Logical(l) => *l,
                };
            }
            Fv::Logical(b)
        }
    }
}

/// an argument as the library passes it
pub enum A<'a> {
    V(ValueType<'a>),
    N(NodesType<'a>),
    L(LogicalType),
}

fn conv(a: A) -> Fv {
    match a {
        A::V(ValueType::Nothing) => Fv::Nothing,
        A::V(ValueType::Value(v)) => Fv::Val(v),
        A::V(ValueType::Node(v)) => Fv::Node(v),
        A::N(n) => Fv::Nodes(n.all()),
        A::L(LogicalType::True) => Fv::Logical(true),
        A::L(LogicalType::False) => Fv::Logical(false),
    }
}

pub fn ret_v<'a>(name: &str, args: Vec<A<'a>>) -> ValueType<'a> {
    match body(name, Ty::V, args.into_iter().map(conv).collect()) {
        Fv::Nothing => ValueType::Nothing,
        Fv::Val(v) => ValueType::Value(v),
        Fv::Node(v) => ValueType::Node(v),
        _ => unreachable!(),
    }
}

pub fn ret_n<'a>(name: &str, args: Vec<A<'a>>) -> NodesType<'a> {
    match body(name, Ty::N, args.into_iter().map(conv).collect()) {
        Fv::Nodes(v) => v.into(),
        _ => unreachable!(),
    }
}

pub fn ret_l(name: &str, args: Vec<A>) -> LogicalType {
    match body(name, Ty::L, args.into_iter().map(conv).collect()) {
        Fv::Logical(b) => b.into(),
        _ => unreachable!(),
    }
}

/// the standard functions, RFC 9535 section 2.4.4 to 2.4.8
pub fn builtin<'a>(name: &str, args: Vec<Fv<'a>>) -> Fv<'a> {
    let int = |n: usize| Fv::Val(json!(n));
    match name {
        "length" => match args[0].value() {
            Some(Value::String(s)) => int(s.chars().count()),
            Some(Value::Array(a)) => int(a.len()),
            Some(Value::Object(o)) => int(o.len()),
            _ => Fv::Nothing,
        },
        "count" => match &args[0] {
            Fv::Nodes(n) => int(n.len()),
            _ => unreachable!(),
        },
        "value" => match &args[0] {
            Fv::Nodes(n) if n.len() == 1 => Fv::Node(n[0]),
            Fv::Nodes(_) => Fv::Nothing,
            _ => unreachable!(),
        },
        "match" | "search" => {
            let r = match (args[0].value(), args[1].value()) {
                (Some(Value::String(s)), Some(Value::String(r))) => {
                    match crate::iregexp::parse(r) {
                        Some(re) if name == "match" => re.full_match(s),
                        Some(re) => re.search(s),
                        None => false,
                    }
                }
                _ => false,
            };
            Fv::Logical(r)
        }
        _ => unreachable!(),
    }
}
