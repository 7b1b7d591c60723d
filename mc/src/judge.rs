//! The oracles shared by the properties about evaluation.

use crate::ast::Query;
use crate::engine::{Ctx, Case, Stats, Verdict};
use crate::eval::{Dev, Ev, Node, Step, LISTED};
use crate::refparse::{self, Expect};
use serde_json::Value;
use serde_json_path::{JsonPath, PathElement};

/// a query parsed by the library and by the reference parser
pub struct Prepared {
    pub text: String,
    pub expect: Expect,
    pub path: Result<JsonPath, String>,
}

impl Prepared {
    pub fn new(text: &str) -> Self {
        Prepared {
            text: text.into(),
            expect: refparse::parse(text),
            path: JsonPath::parse(text).map_err(|e| e.to_string()),
        }
    }

    /// the library must accept exactly what the reference parser accepts
    pub fn acceptance(&self, st: &mut Stats) -> Verdict {
        match (&self.expect, &self.path) {
            (Expect::Accept(_), Ok(_)) => st.class("accepted"),
            (Expect::Reject(_), Err(_)) => st.class("rejected"),
            (Expect::Open(_), _) => st.class("left open"),
            (Expect::Accept(_), Err(e)) => {
                return Err(format!("valid query {:?} is rejected: {e}", self.text))
            }
            (Expect::Reject(w), Ok(_)) => {
                return Err(format!("query {:?} is accepted, but is invalid ({w:?})", self.text))
            }
        }
        Ok(())
    }

    pub fn both(&self) -> Option<(&Query, &JsonPath)> {
        Some((self.expect.query()?, self.path.as_ref().ok()?))
    }
}

pub fn show_path(p: &[Step]) -> String {
    let mut s = String::from("$");
    for e in p {
        match e {
            Step::Key(k) => s.push_str(&format!("[{k:?}]")),
            Step::Idx(i) => s.push_str(&format!("[{i}]")),
        }
    }
    s
}

pub fn show_nodes(ns: &[Node]) -> String {
    let v: Vec<String> = ns.iter().take(12).map(|n| show_path(&n.0)).collect();
    format!("[{}{}] ({})", v.join(", "), if ns.len() > 12 { ", ..." } else { "" }, ns.len())
}

pub fn same_step(e: &PathElement, s: &Step) -> bool {
    match (e, s) {
        (PathElement::Name(n), Step::Key(k)) => n == k,
        (PathElement::Index(i), Step::Idx(j)) => i == j,
        _ => false,
    }
}

pub fn model<'d>(q: &Query, doc: &'d Value, st: &mut Stats) -> Vec<Node<'d>> {
    model_dev(q, doc, st, Dev::NONE)
}

pub fn model_dev<'d>(q: &Query, doc: &'d Value, st: &mut Stats, dev: Dev) -> Vec<Node<'d>> {
    Ev { root: doc, st, dev }.query(q, &(vec![], doc))
}

/// the library's results, plain and located, are exactly those of the reference evaluator
pub fn eval_matches(p: &Prepared, doc: &Value, st: &mut Stats) -> Verdict {
    eval_matches_with(p, doc, st, *LISTED)
}

/// the same where only the structure of the query is in question: what comparisons and singular
/// queries evaluate to may deviate as the known findings (of C04 and C27) do
pub fn structure_matches(p: &Prepared, doc: &Value, st: &mut Stats) -> Verdict {
    eval_matches_with(p, doc, st, Dev { negative_index: true, unordered: true, absent: true, nested: true })
}

fn eval_matches_with(p: &Prepared, doc: &Value, st: &mut Stats, listed: Dev) -> Verdict {
    let Some((q, path)) = p.both() else {
        return p.acceptance(st);
    };
    let want = model(q, doc, st);
    st.traces += 1;
    match want.len() {
        0 => st.class("no node"),
        1 => st.class("one node"),
        _ => st.class("several nodes"),
    }
    let Err(msg) = same_results(p, path, doc, &want) else { return Ok(()) };
    if listed != Dev::NONE {
        for (id, d) in listed.singles() {
            if same_results(p, path, doc, &model_dev(q, doc, st, d)).is_ok() {
                st.class(id);
                return Ok(());
            }
        }
        if same_results(p, path, doc, &model_dev(q, doc, st, listed)).is_ok() {
            st.class("several known findings at once");
            return Ok(());
        }
    }
    Err(msg)
}

fn same_results(p: &Prepared, path: &JsonPath, doc: &Value, want: &[Node]) -> Verdict {
    let located = path.query_located(doc);
    let got: Vec<_> = located.iter().collect();
    let ok = got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| {
            std::ptr::eq(g.node(), w.1)
                && g.location().len() == w.0.len()
                && g.location().iter().zip(&w.0).all(|(e, s)| same_step(e, s))
        });
    if !ok {
        let g: Vec<String> = got.iter().take(12).map(|g| g.location().to_string()).collect();
        return Err(format!(
            "query_located of {:?} gives [{}] ({}), the RFC defines {}",
            p.text,
            g.join(", "),
            got.len(),
            show_nodes(want)
        ));
    }
    let plain = path.query(doc).all();
    let ok = plain.len() == want.len()
        && plain.iter().zip(want).all(|(g, w)| std::ptr::eq(*g, w.1));
    if !ok {
        return Err(format!(
            "query of {:?} gives {} ({}), the RFC defines {} = {}",
            p.text,
            serde_json::to_string(&plain.iter().take(12).collect::<Vec<_>>()).unwrap(),
            plain.len(),
            show_nodes(want),
            serde_json::to_string(&want.iter().take(12).map(|w| w.1).collect::<Vec<_>>()).unwrap(),
        ));
    }
    Ok(())
}

/// judge one query text on many documents
pub fn eval_all<'a>(cx: &mut Ctx, q: &str, docs: impl IntoIterator<Item = &'a Value>) {
    let p = match prepare(cx, q) {
        Some(p) => p,
        None => return,
    };
    for d in docs {
        cx.case(&|| Case::new("eval", q).doc(d), &mut |st| eval_matches(&p, d, st));
    }
}

/// parse, as a case of its own, so that a crash in the parser is noticed as well
pub fn prepare(cx: &mut Ctx, q: &str) -> Option<Prepared> {
    let mut p = None;
    cx.case(&|| Case::new("parse", q), &mut |st| {
        let pr = Prepared::new(q);
        st.traces += 1;
        // each prefix is a state of the reference recogniser, each character a step
        st.transitions += q.len() as u64;
        st.states += q.len() as u64 + 1;
        let r = pr.acceptance(st);
        p = Some(pr);
        r
    });
    p.filter(|p| p.both().is_some())
}

pub fn judge_eval(c: &Case, st: &mut Stats) -> Verdict {
    let p = Prepared::new(&c.q);
    p.acceptance(st)?;
    if c.kind == "parse" {
        return Ok(());
    }
    eval_matches(&p, &c.doc, st)
}
