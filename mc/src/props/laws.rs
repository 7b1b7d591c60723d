//! C30: equality, order and conversions of elements, locations, located nodes and lists.

use crate::engine::{phase, Case, Ctx, Phase, Stats, Verdict};
use crate::gen::{quote, tuple};
use crate::props::nodes::{all_nodes, canonical};
use crate::props::select::odd_chars;
use crate::eval::Step;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, LocatedNode, LocatedNodeList, NodeList, NormalizedPath, PathElement};
use std::cmp::Ordering;
use std::sync::Arc;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// an element of a location: a name or an index
#[derive(Clone, PartialEq, Debug)]
pub enum El {
    N(String),
    I(usize),
}

fn n(s: &str) -> El {
    El::N(s.into())
}

type Steps = Vec<El>;

fn to_json(s: &[El]) -> Value {
    s.iter().map(|e| match e { El::N(n) => json!(n), El::I(i) => json!(i) }).collect()
}

fn of_json(v: &Value) -> Steps {
    v.as_array().unwrap().iter().map(|e| match e { Value::String(n) => El::N(n.clone()), e => El::I(e.as_u64().unwrap() as usize) }).collect()
}

/// a document with a node at that location
fn document(s: &[El], leaf: &Value) -> Value {
    s.iter().rev().fold(leaf.clone(), |v, e| match e {
        El::N(n) => json!({n: v}),
        El::I(i) => {
            let mut a = vec![Value::Null; *i];
            a.push(v);
            Value::Array(a)
        }
    })
}

fn text(s: &[El]) -> String {
    s.iter().fold("$".into(), |t, e| match e {
        El::N(n) => format!("{t}[{}]", quote(n, '"')),
        El::I(i) => format!("{t}[{i}]"),
    })
}

fn query(s: &[El]) -> Result<JsonPath, String> {
    let q = text(s);
    JsonPath::parse(&q).map_err(|e| format!("valid query {q:?} is rejected: {e}"))
}

fn located<'d>(p: &JsonPath, doc: &'d Value, s: &[El]) -> Result<LocatedNode<'d>, String> {
    let mut l = p.query_located(doc).all();
    ensure!(l.len() == 1, "{} selects {} nodes of {doc}", text(s), l.len());
    Ok(l.remove(0))
}

/// element by element; nothing if a name meets an index; what is a beginning of the other first
fn order(a: &[El], b: &[El]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        let o = match (x, y) {
            (El::N(s), El::N(t)) => s.chars().cmp(t.chars()),
            (El::I(i), El::I(j)) => i.cmp(j),
            _ => return None,
        };
        if o.is_ne() {
            return Some(o);
        }
    }
    Some(a.len().cmp(&b.len()))
}

fn compared<T: PartialEq + PartialOrd + ?Sized>(what: &str, a: &T, b: &T, eq: bool, ord: Option<Ordering>) -> Verdict {
    ensure!((a == b) == eq && (a != b) != eq, "{what}: == gives {}, expected {eq}", a == b);
    ensure!(a.partial_cmp(b) == ord, "{what}: partial_cmp gives {:?}, expected {ord:?}", a.partial_cmp(b));
    let is = |o: &[Ordering]| ord.is_some_and(|x| o.contains(&x));
    use Ordering::*;
    ensure!(
        (a < b) == is(&[Less]) && (a <= b) == is(&[Less, Equal]) && (a > b) == is(&[Greater]) && (a >= b) == is(&[Greater, Equal]),
        "{what}: <, <=, >, >= give {}, {}, {}, {}, but the order is {ord:?}", a < b, a <= b, a > b, a >= b
    );
    Ok(())
}

/// an element by itself
fn judge_element(e: &PathElement, is: &El) -> Verdict {
    match is {
        El::N(s) => {
            ensure!(e.as_name() == Some(s) && e.is_name() && e.as_index().is_none() && !e.is_index(), "the element {e:?} is not told as the name {s:?}");
            ensure!(*e == **s && *e == s.as_str() && *e == PathElement::from(s) && matches!(e, PathElement::Name(t) if t == s), "the element {e:?} does not equal the name {s:?}");
            let other = format!("{s}x");
            ensure!(*e != *other && *e != other.as_str(), "the element {e:?} equals {other:?}");
            if let Ok(i) = s.parse::<usize>() {
                ensure!(*e != i, "the name {e:?} equals the index {i}");
            }
            ensure!(serde_json::to_value(e).ok() == Some(json!(s)), "the element {e:?} is serialized as {:?}", serde_json::to_value(e));
        }
        El::I(i) => {
            ensure!(e.as_index() == Some(*i) && e.is_index() && e.as_name().is_none() && !e.is_name(), "the element {e:?} is not told as the index {i}");
            ensure!(*e == *i && *e == PathElement::from(*i) && matches!(e, PathElement::Index(j) if j == i), "the element {e:?} does not equal the index {i}");
            ensure!(*e != i.wrapping_add(1) && *e != i.wrapping_sub(1), "the element {e:?} equals an index next to {i}");
            ensure!(*e != *i.to_string() && *e != i.to_string().as_str(), "the index {e:?} equals the name {i}");
            ensure!(e.to_string() == i.to_string() && serde_json::to_value(e).ok() == Some(json!(i)), "the element {e:?} is displayed as {e}");
        }
    }
    Ok(())
}

/// two located nodes that are known to be at `sa` and `sb`
fn judge_two(a: &LocatedNode, sa: &[El], b: &LocatedNode, sb: &[El], st: &mut Stats) -> Verdict {
    st.states += (sa.len() + sb.len()) as u64 + 2;
    st.transitions += 1;
    st.traces += 2;
    let (eq, ord) = (sa == sb, order(sa, sb));
    let show = || format!("{} and {}", text(sa), text(sb));
    let (la, lb) = (a.location(), b.location());
    compared(&format!("locations {}", show()), la, lb, eq, ord)?;
    compared(&format!("locations {}", show()), lb, la, eq, ord.map(Ordering::reverse))?;
    let same = eq && a.node() == b.node();
    ensure!((a == b) == same && (a != b) != same && (b == a) == same, "located nodes {}: == gives {}, expected {same}", show(), a == b);
    for (x, ex) in la.iter().zip(sa) {
        for (y, ey) in lb.iter().zip(sb) {
            let o = order(&[ex.clone()], &[ey.clone()]);
            compared(&format!("elements {x:?} and {y:?}"), x, y, ex == ey, o)?;
        }
    }
    st.class(match ord {
        None => "not ordered",
        Some(Ordering::Equal) => "equal",
        _ => "ordered",
    });
    Ok(())
}

/// a located node that is known to be at `s`, and its conversions
fn judge_one(a: &LocatedNode, s: &[El], st: &mut Stats) -> Verdict {
    st.states += s.len() as u64 + 1;
    st.traces += 6;
    let l = a.location();
    let t = text(s);
    let fits = |v: &mut dyn Iterator<Item = PathElement<'_>>| {
        let v: Vec<_> = v.collect();
        v.len() == s.len() && v.iter().zip(s).all(|(e, is)| judge_element(e, is).is_ok())
    };
    for (e, is) in l.iter().zip(s) {
        judge_element(e, is)?;
        ensure!(e.clone() == *e, "a clone of the element {e:?} differs");
    }
    ensure!(fits(&mut l.iter().cloned()), "the elements of {t} are {:?}", l.iter().collect::<Vec<_>>());
    ensure!(fits(&mut l.clone().into_iter()), "the elements of {t} by value are {:?}", l.clone().into_iter().collect::<Vec<_>>());
    let back: Vec<_> = l.clone().into_iter().rev().collect();
    ensure!(fits(&mut back.into_iter().rev()), "the elements of {t} by value, backwards, differ");
    let c = a.clone();
    ensure!(c == *a && c.location() == l && std::ptr::eq(c.node(), a.node()), "a clone of the node at {t} differs");
    let into: NormalizedPath = c.clone().into();
    ensure!(into == *l && fits(&mut into.iter().cloned()), "the node at {t} converts to the location {into}");
    let to = c.to_location();
    ensure!(to == *l && fits(&mut to.iter().cloned()), "the node at {t} gives the location {to}");
    ensure!((*l == NormalizedPath::default()) == s.is_empty(), "{t} compared with the default location");
    st.class("location by itself");
    Ok(())
}

fn judge_locations(sa: &[El], sb: &[El], st: &mut Stats) -> Verdict {
    let (da, db) = (document(sa, &json!(1)), document(sb, &json!(1)));
    let (a, b) = (located(&query(sa)?, &da, sa)?, located(&query(sb)?, &db, sb)?);
    judge_one(&a, sa, st)?;
    judge_two(&a, sa, &b, sb, st)?;
    // the same location with another value
    let dc = document(sb, &json!([2]));
    judge_two(&a, sa, &located(&query(sb)?, &dc, sb)?, sb, st)
}

/// lists of nodes of two documents, given by the nodes' numbers
fn judge_lists(docs: (&Value, &Value), ia: &[usize], ib: &[usize], st: &mut Stats) -> Verdict {
    let (na, nb) = (all_nodes(docs.0), all_nodes(docs.1));
    st.states += (ia.len() + ib.len()) as u64 + 1;
    st.transitions += 1;
    st.traces += 4;
    let fetch = |d, nodes: &[(Vec<Step>, &Value)], idx: &[usize]| -> Result<Vec<LocatedNode>, String> {
        let mut out = vec![];
        for &i in idx {
            let q = canonical(&nodes[i % nodes.len()].0);
            let p = JsonPath::parse(&q).map_err(|e| format!("valid query {q:?} is rejected: {e}"))?;
            out.extend(p.query_located(d).all());
        }
        ensure!(out.len() == idx.len(), "{} nodes for {} locations", out.len(), idx.len());
        Ok(out)
    };
    let (va, vb) = (fetch(docs.0, &na, ia)?, fetch(docs.1, &nb, ib)?);
    let pa: Vec<&Value> = ia.iter().map(|i| na[i % na.len()].1).collect();
    let pb: Vec<&Value> = ib.iter().map(|i| nb[i % nb.len()].1).collect();
    let values = pa == pb;
    let places = ia.len() == ib.len() && ia.iter().zip(ib).all(|(i, j)| na[i % na.len()].0 == nb[j % nb.len()].0);
    let show = || format!("nodes {ia:?} of {} and {ib:?} of {}", docs.0, docs.1);
    let (la, lb) = (NodeList::from(pa.clone()), NodeList::from(pb.clone()));
    ensure!((la == lb) == values && (la != lb) != values, "lists of {}: == gives {}, expected {values}", show(), la == lb);
    let (xa, xb) = (LocatedNodeList::from(va.clone()), LocatedNodeList::from(vb.clone()));
    let both = values && places;
    ensure!((xa == xb) == both && (xa != xb) != both, "located lists of {}: == gives {}, expected {both}", show(), xa == xb);
    ensure!(la == la.clone() && xa == xa.clone(), "a clone differs from the list of {}", show());
    ensure!((la == NodeList::default()) == ia.is_empty() && (xa == LocatedNodeList::default()) == ia.is_empty(), "{ia:?} compared with the default list");
    // what goes in comes out
    let same = |v: &[&Value]| v.len() == pa.len() && v.iter().zip(&pa).all(|(x, y)| std::ptr::eq(*x, *y));
    ensure!(same(&la.clone().all()) && same(&la.clone().into_iter().collect::<Vec<_>>()), "the list of {} gives back other nodes", show());
    let nodes: Vec<&Value> = xa.clone().into_iter().map(|n| n.node()).collect();
    ensure!(same(&nodes) && xa.clone().all() == va && xa.into_iter().collect::<Vec<_>>() == va, "the located list of {} gives back other nodes", show());
    st.class(if both { "lists equal" } else if values { "values equal" } else { "lists different" });
    Ok(())
}

fn pair(cx: &mut Ctx, a: &[El], b: &[El], f: &mut dyn FnMut(&mut Stats) -> Verdict) {
    cx.case(&|| Case::new("locations", "").x(json!([to_json(a), to_json(b)])), f);
}

/// all pairs of locations, one unit for each first one
fn pairs(name: &'static str, bound: String, all: Vec<Steps>) -> Phase {
    let all = Arc::new(all);
    phase(name, bound, all.len(), move |u, cx| {
        let leaf = json!(1);
        let sa = &all[u];
        pair(cx, sa, sa, &mut |st| judge_locations(sa, sa, st));
        let da = document(sa, &leaf);
        let Ok(a) = query(sa).and_then(|p| located(&p, &da, sa)) else { return };
        for (k, sb) in all.iter().enumerate() {
            let db = document(sb, if k % 2 == 0 { &leaf } else { &Value::Null });
            pair(cx, sa, sb, &mut |st| judge_two(&a, sa, &located(&query(sb)?, &db, sb)?, sb, st));
            if cx.stopped() {
                return;
            }
        }
    })
}

pub fn c30(thorough: bool) -> Vec<Phase> {
    let mut ph = vec![];
    {
        let els = [n("a"), n("b"), n(""), n("0"), n("10"), n("1"), El::I(0), El::I(1), El::I(2), El::I(10)];
        let k = if thorough { 4 } else { 3 };
        let els: Vec<El> = if thorough { els[1..].iter().filter(|e| **e != n("1")).cloned().collect() } else { els.into() };
        let mut all = vec![];
        for l in 0..=k {
            for i in 0..els.len().pow(l as u32) {
                all.push(tuple(i, l, els.len()).into_iter().map(|j| els[j].clone()).collect());
            }
        }
        ph.push(pairs("locations", format!("all pairs of the {} locations of up to {k} of {} elements", all.len(), els.len()), all));
    }
    {
        // single elements: names of one or two characters, names that look like indices, indices
        let mut els: Vec<El> = vec![];
        for c in odd_chars() {
            els.push(El::N(c.to_string()));
            els.push(El::N(format!("a{c}")));
            els.push(El::N(format!("{c}a")));
        }
        for s in ["", "00", "01", "1", "9", "10", "A", "a", "aa", "B", "-1", "+1", "1.0", "true", "ä", "a\u{308}", "\u{e4}", "ﬀ", "ff", "ß", "ss", "\u{ffff}", "\u{10000}", "\u{10ffff}", "$", "@", "*", "é", "e\u{301}", "a b", "a\u{0}", "a\u{0}b"] {
            els.push(n(s));
        }
        els.extend((0..if thorough { 130 } else { 40 }).chain([99, 100, 255, 256, 257, 999, 1000]).map(El::I));
        els.dedup();
        let all: Vec<Steps> = els.into_iter().map(|e| vec![e]).collect();
        ph.push(pairs("elements", format!("all pairs of {} locations of a single element: odd characters, names like indices, names that look alike, indices", all.len()), all));
    }
    {
        // long locations that differ at one place, or in length
        let max = if thorough { 120 } else { 70 };
        ph.push(phase("long locations", format!("all locations of 0..={max} equal elements against those that differ at one place, are shorter or longer"), max + 1, move |len, cx| {
            for (e, f) in [(n("a"), n("b")), (El::I(1), El::I(0)), (n("a"), El::I(0)), (El::I(9), El::I(10)), (n("9"), n("10"))] {
                let a = vec![e.clone(); len];
                for at in 0..len {
                    let mut b = a.clone();
                    b[at] = f.clone();
                    pair(cx, &a, &b, &mut |st| judge_locations(&a, &b, st));
                    b.truncate(at + 1);
                    pair(cx, &b, &a, &mut |st| judge_locations(&b, &a, st));
                }
                let mut b = a.clone();
                b.push(e.clone());
                pair(cx, &a, &b, &mut |st| judge_locations(&a, &b, st));
            }
        }));
    }
    let ds: Arc<Vec<Value>> = Arc::new(vec![
        json!([1, [1], 1]),
        json!([[1], 1, 1]),
        json!({"a": 1, "b": {"a": 1}}),
        json!({"b": 1, "a": {"a": 1}}),
        json!([1.0, "1", true, null]),
        json!([{"a": 1, "b": 2}, {"b": 2, "a": 1}, []]),
        json!({"0": 1, "1": [1], "2": 1}),
    ]);
    {
        let k = if thorough { 3 } else { 2 };
        let n = ds.len() * ds.len();
        ph.push(phase("lists", format!("{} documents squared x all pairs of lists of up to {k} nodes (and, of one document, of up to {} and {k})", ds.len(), k + 1), n, move |u, cx| {
            let (d, e) = (&ds[u / ds.len()], &ds[u % ds.len()]);
            let (nd, ne) = (all_nodes(d).len(), all_nodes(e).len());
            let top = if u / ds.len() == u % ds.len() { k + 1 } else { k };
            for la in 0..=top {
                for i in 0..nd.pow(la as u32) {
                    let ia = tuple(i, la, nd);
                    for lb in 0..=k {
                        for j in 0..ne.pow(lb as u32) {
                            let ib = tuple(j, lb, ne);
                            cx.case(&|| Case::new("lists", "").doc(&json!([d, e])).x(json!([ia, ib])), &mut |st| judge_lists((d, e), &ia, &ib, st));
                        }
                    }
                    if cx.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    {
        let max = if thorough { 140 } else { 70 };
        ph.push(phase("long lists", format!("lists of 0..={max} equal nodes against those that differ at one place, or are longer"), max + 1, move |len, cx| {
            let d = json!([1, 1, 2]);
            for (x, y) in [(1, 2), (1, 3), (3, 1)] {
                let a = vec![x; len];
                for at in 0..len {
                    let mut b = a.clone();
                    b[at] = y;
                    cx.case(&|| Case::new("lists", "").doc(&json!([d, d])).x(json!([a, b])), &mut |st| judge_lists((&d, &d), &a, &b, st));
                }
                let b = vec![x; len + 1];
                cx.case(&|| Case::new("lists", "").doc(&json!([d, d])).x(json!([a, b])), &mut |st| judge_lists((&d, &d), &a, &b, st));
                cx.case(&|| Case::new("lists", "").doc(&json!([d, d])).x(json!([b, a])), &mut |st| judge_lists((&d, &d), &b, &a, st));
            }
        }));
    }
    {
        let ns = crate::gen::powers(if thorough { 1 << 13 } else { 1 << 11 });
        ph.push(phase("powers of two", format!("locations of {:?} elements, lists of {ns:?} nodes, equal or differing at one place", ns.iter().filter(|n| **n <= 1025).collect::<Vec<_>>()), ns.len(), move |u, cx| {
            let len = ns[u];
            let d = json!([1, 1, 2]);
            for at in [0, 1, 254, 255, 256, len / 2, len - 2, len - 1] {
                if at >= len {
                    continue;
                }
                if len <= 1025 {
                    for (e, f) in [(n("a"), n("b")), (El::I(1), El::I(0)), (n("a"), El::I(0))] {
                        let a = vec![e.clone(); len];
                        let mut b = a.clone();
                        b[at] = f.clone();
                        pair(cx, &a, &b, &mut |st| judge_locations(&a, &b, st));
                        b.truncate(at + 1);
                        pair(cx, &b, &a, &mut |st| judge_locations(&b, &a, st));
                    }
                    for (e, f) in [(El::I(at), El::I(at + 1)), (El::I(at), El::I(len)), (El::I(at), El::I(at + 65536))] {
                        pair(cx, &vec![e.clone()], &vec![f.clone()], &mut |st| judge_locations(&[e.clone()], &[f.clone()], st));
                    }
                    for (x, y) in [("a".repeat(at), "a".repeat(len)), (format!("{}b{}", "a".repeat(at), "a".repeat(len - at)), "a".repeat(len + 1)), (format!("{}b{}", "é".repeat(at), "é".repeat(len - at)), "é".repeat(len + 1))] {
                        let (x, y) = (vec![n(&x)], vec![n(&y)]);
                        pair(cx, &x, &y, &mut |st| judge_locations(&x, &y, st));
                    }
                }
                for (x, y) in [(1, 2), (1, 3), (3, 1)] {
                    let a = vec![x; len];
                    let mut b = a.clone();
                    b[at] = y;
                    cx.case(&|| Case::new("lists", "").doc(&json!([d, d])).x(json!([a, b])), &mut |st| judge_lists((&d, &d), &a, &b, st));
                    b[at] = x;
                    b.truncate(at + 1);
                    cx.case(&|| Case::new("lists", "").doc(&json!([d, d])).x(json!([a, b])), &mut |st| judge_lists((&d, &d), &a, &b, st));
                }
            }
        }));
    }
    ph
}

pub fn judge_case(c: &Case, st: &mut Stats) -> Verdict {
    if c.kind == "locations" {
        return judge_locations(&of_json(&c.x[0]), &of_json(&c.x[1]), st);
    }
    let idx = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize).collect() };
    judge_lists((&c.doc[0], &c.doc[1]), &idx(&c.x[0]), &idx(&c.x[1]), st)
}
