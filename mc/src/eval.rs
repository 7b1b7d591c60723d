//! Reference evaluator: RFC 9535 semantics, written to be obviously right rather than fast.

use crate::ast::*;
use crate::funcs::{self, Fv, Ty};
use crate::engine::Stats;
use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step<'d> {
    Key(&'d str),
    Idx(usize),
}

pub type Path<'d> = Vec<Step<'d>>;
pub type Node<'d> = (Path<'d>, &'d Value);

/// known findings: how the code is known to deviate from the RFC at particular sites; results are
/// judged by the RFC first, and by the listed deviations only if they differ from it
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Dev {
    /// a negative index in a singular query selects nothing
    pub negative_index: bool,
    /// `>` and `>=` hold between values of the same type that have no ordering and are not equal
    pub unordered: bool,
    /// `<=` and `>=` fail for two absent operands
    pub absent: bool,
    /// numbers nested in arrays and objects are compared by representation
    pub nested: bool,
}

impl Dev {
    pub const NONE: Dev = Dev { negative_index: false, unordered: false, absent: false, nested: false };

    pub fn set(&mut self, id: &str) -> bool {
        match id {
            "singular-negative-index" => self.negative_index = true,
            "unordered-comparison" => self.unordered = true,
            "absent-comparison" => self.absent = true,
            "nested-number-equality" => self.nested = true,
            _ => return false,
        }
        true
    }

    /// each listed deviation alone, to name the one that explains a result
    pub fn singles(self) -> Vec<(&'static str, Dev)> {
        let mut v = vec![];
        for id in ["singular-negative-index", "unordered-comparison", "absent-comparison", "nested-number-equality"] {
            let mut d = Dev::NONE;
            d.set(id);
            let listed = (d.negative_index && self.negative_index)
                || (d.unordered && self.unordered)
                || (d.absent && self.absent)
                || (d.nested && self.nested);
            if listed {
                v.push((id, d));
            }
        }
        v
    }
}

/// the deviations listed for the property under check (`MC_KNOWN`)
pub static LISTED: std::sync::LazyLock<Dev> = std::sync::LazyLock::new(|| {
    let mut d = Dev::NONE;
    for id in std::env::var("MC_KNOWN").unwrap_or_default().split(',') {
        d.set(id);
    }
    d
});

pub struct Ev<'d, 's> {
    pub root: &'d Value,
    pub st: &'s mut Stats,
    pub dev: Dev,
}

fn child<'d>(n: &Node<'d>, s: Step<'d>, v: &'d Value) -> Node<'d> {
    let mut p = Vec::with_capacity(n.0.len() + 1);
    p.extend_from_slice(&n.0);
    p.push(s);
    (p, v)
}

fn children<'d>(n: &Node<'d>) -> Vec<Node<'d>> {
    match n.1 {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| child(n, Step::Idx(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| child(n, Step::Key(k), v)).collect(),
        _ => vec![],
    }
}

fn descendants<'d>(n: &Node<'d>, out: &mut Vec<Node<'d>>) {
    out.push(n.clone());
    for c in children(n) {
        descendants(&c, out);
    }
}

/// the indices a slice selects, RFC 9535 section 2.3.4.2.2, in wide arithmetic
pub fn slice_indices(len: usize, a: Option<i64>, b: Option<i64>, c: Option<i64>) -> Vec<usize> {
    let len = len as i128;
    let step = c.map_or(1, |c| c as i128);
    if step == 0 {
        return vec![];
    }
    let start = a.map_or(if step >= 0 { 0 } else { len - 1 }, |a| a as i128);
    let end = b.map_or(if step >= 0 { len } else { -len - 1 }, |b| b as i128);
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ns, ne) = (norm(start), norm(end));
    let mut out = vec![];
    if step > 0 {
        let lower = ns.max(0).min(len);
        let upper = ne.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = ns.max(-1).min(len - 1);
        let lower = ne.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}

impl<'d> Ev<'d, '_> {
    pub fn query(&mut self, q: &Query, cur: &Node<'d>) -> Vec<Node<'d>> {
        let mut nodes = vec![if q.abs { (vec![], self.root) } else { cur.clone() }];
        self.st.states += 1;
        for seg in &q.segs {
            self.st.states += 1;
            let mut out = vec![];
            for n in &nodes {
                if seg.desc {
                    let mut ds = vec![];
                    descendants(n, &mut ds);
                    for d in &ds {
                        self.select_all(&seg.sels, d, &mut out);
                    }
                } else {
                    self.select_all(&seg.sels, n, &mut out);
                }
            }
            nodes = out;
        }
        nodes
    }

    fn select_all(&mut self, sels: &[Sel], n: &Node<'d>, out: &mut Vec<Node<'d>>) {
        for s in sels {
            self.st.transitions += 1;
            match (s, n.1) {
                (Sel::Name(k), Value::Object(o)) => {
                    for (key, v) in o {
                        if key == k {
                            out.push(child(n, Step::Key(key), v));
                        }
                    }
                }
                (Sel::Wild, _) => out.extend(children(n)),
                (Sel::Index(i), Value::Array(a)) => {
                    let len = a.len() as i128;
                    let i = *i as i128;
                    let k = if i < 0 { len + i } else { i };
                    if (0..len).contains(&k) {
                        out.push(child(n, Step::Idx(k as usize), &a[k as usize]));
                    }
                }
                (Sel::Slice(s, e, t), Value::Array(a)) => {
                    for i in slice_indices(a.len(), *s, *e, *t) {
                        out.push(child(n, Step::Idx(i), &a[i]));
                    }
                }
                (Sel::Filter(e), _) => {
                    for c in children(n) {
                        if self.test(e, &c) {
                            out.push(c);
                        }
                    }
                }
                _ => {}
            }
        }
    }

    pub fn test(&mut self, e: &Expr, cur: &Node<'d>) -> bool {
        match e {
            // every operand is evaluated: none can have side effects
            Expr::Or(es) => es.iter().fold(false, |acc, e| self.test(e, cur) | acc),
            Expr::And(es) => es.iter().fold(true, |acc, e| self.test(e, cur) & acc),
            Expr::Not(e) => !self.test(e, cur),
            Expr::Exist(q) => !self.query(q, cur).is_empty(),
            Expr::Func(c) => match self.call(c, cur) {
                Fv::Logical(b) => b,
                Fv::Nodes(n) => !n.is_empty(),
                _ => unreachable!("ill-typed test"),
            },
            Expr::Cmp(a, op, b) => {
                let a = self.operand(a, cur);
                let b = self.operand(b, cur);
                compare(a.value(), *op, b.value(), self.dev)
            }
        }
    }

    fn operand(&mut self, o: &Operand, cur: &Node<'d>) -> Fv<'d> {
        match o {
            Operand::Lit(l) => Fv::Val(lit_value(l)),
            Operand::Query(q) => self.single(q, cur),
            Operand::Func(c) => self.call(c, cur),
        }
    }

    fn single(&mut self, q: &Query, cur: &Node<'d>) -> Fv<'d> {
        if self.dev.negative_index && negative(q) {
            return Fv::Nothing;
        }
        let r = self.query(q, cur);
        assert!(r.len() <= 1, "singular query selects several nodes");
        r.first().map_or(Fv::Nothing, |n| Fv::Node(n.1))
    }

    pub fn call(&mut self, c: &Call, cur: &Node<'d>) -> Fv<'d> {
        let (params, ret) = funcs::signature(&c.name).expect("typed");
        let mut args = vec![];
        for (p, a) in params.iter().zip(&c.args) {
            args.push(match (p, a) {
                (Ty::V, Arg::Lit(l)) => Fv::Val(lit_value(l)),
                (Ty::V, Arg::Query(q)) => self.single(q, cur),
                (Ty::N, Arg::Query(q)) if self.dev.negative_index && negative(q) => Fv::Nodes(vec![]),
                (Ty::L, Arg::Query(q)) if self.dev.negative_index && negative(q) => Fv::Logical(false),
                (Ty::N, Arg::Query(q)) => {
                    Fv::Nodes(self.query(q, cur).into_iter().map(|n| n.1).collect())
                }
                (Ty::L, Arg::Query(q)) => Fv::Logical(!self.query(q, cur).is_empty()),
                (Ty::L, Arg::Logical(e)) => Fv::Logical(self.test(e, cur)),
                (Ty::L, Arg::Func(f)) => match self.call(f, cur) {
                    Fv::Nodes(n) => Fv::Logical(!n.is_empty()),
                    r => r,
                },
                (_, Arg::Func(f)) => self.call(f, cur),
                _ => unreachable!("ill-typed call"),
            });
        }
        if funcs::is_builtin(&c.name) {
            funcs::builtin(&c.name, args)
        } else {
            funcs::body(&c.name, ret, args)
        }
    }
}

pub fn lit_value(l: &Lit) -> Value {
    match l {
        Lit::Null => Value::Null,
        Lit::Bool(b) => Value::Bool(*b),
        Lit::Str(s) => Value::String(s.clone()),
        // number literals have JSON's syntax; their value is that of the same JSON text, as the
        // JSON library reads it (which is not always the nearest double)
        Lit::Num(t) => Value::Number(serde_json::from_str(t).expect("number")),
    }
}

#[derive(Clone, Copy)]
enum Num {
    I(i128),
    F(f64),
}

fn num(n: &serde_json::Number) -> Num {
    if let Some(i) = n.as_i64() {
        Num::I(i.into())
    } else if let Some(u) = n.as_u64() {
        Num::I(u.into())
    } else {
        Num::F(n.as_f64().expect("number"))
    }
}

fn num_cmp(a: &serde_json::Number, b: &serde_json::Number) -> std::cmp::Ordering {
    match (num(a), num(b)) {
        (Num::I(a), Num::I(b)) => a.cmp(&b),
        (Num::I(a), Num::F(b)) => (a as f64).partial_cmp(&b).expect("finite"),
        (Num::F(a), Num::I(b)) => a.partial_cmp(&(b as f64)).expect("finite"),
        (Num::F(a), Num::F(b)) => a.partial_cmp(&b).expect("finite"),
    }
}

pub fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(a), Value::Number(b)) => num_cmp(a, b).is_eq(),
        (Value::String(a), Value::String(b)) => a.chars().eq(b.chars()),
        (Value::Array(a), Value::Array(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b))
        }
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && equal(v, v2)))
        }
        _ => false,
    }
}

fn less(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => num_cmp(a, b).is_lt(),
        (Value::String(a), Value::String(b)) => a.chars().lt(b.chars()),
        _ => false,
    }
}

/// RFC 9535 section 2.3.5.2.2; `None` is an absent value (an empty nodelist, or Nothing)
/// a singular query with a negative index
fn negative(q: &Query) -> bool {
    q.is_singular() && q.segs.iter().any(|s| matches!(s.sels[0], Sel::Index(i) if i < 0))
}

pub fn compare(a: Option<&Value>, op: Op, b: Option<&Value>, dev: Dev) -> bool {
    let eq = match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) if dev.nested && !(a.is_number() && b.is_number()) => a == b,
        (Some(a), Some(b)) => equal(a, b),
        _ => false,
    };
    if dev.absent && a.is_none() && b.is_none() && matches!(op, Op::Le | Op::Ge) {
        return false;
    }
    if dev.unordered && matches!(op, Op::Gt | Op::Ge) {
        match (a, b) {
            (Some(Value::Bool(_)), Some(Value::Bool(_)))
            | (Some(Value::Array(_)), Some(Value::Array(_)))
            | (Some(Value::Object(_)), Some(Value::Object(_))) => return op == Op::Ge || !eq,
            _ => {}
        }
    }
    let lt = |a: Option<&Value>, b: Option<&Value>| match (a, b) {
        (Some(a), Some(b)) => less(a, b),
        _ => false,
    };
    match op {
        Op::Eq => eq,
        Op::Ne => !eq,
        Op::Lt => lt(a, b),
        Op::Gt => lt(b, a),
        Op::Le => lt(a, b) || eq,
        Op::Ge => lt(b, a) || eq,
    }
}
