//! What the threads do, compiled with the same instrumentation as the crates under test.

use serde_json::Value;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::{JsonPath, JsonPathExt, LocatedNodeList, ParseError};

#[serde_json_path::function]
fn first_of(nodes: NodesType) -> ValueType {
    match nodes.into_iter().next() {
        Some(v) => ValueType::Node(v),
        None => ValueType::Nothing,
    }
}

#[serde_json_path::function(name = "both")]
fn conjunction(a: LogicalType, b: LogicalType) -> LogicalType {
    (bool::from(a) && bool::from(b)).into()
}

#[serde_json_path::function]
fn same(v: ValueType) -> ValueType {
    v
}

// one of each kind, for nesting

#[serde_json_path::function]
fn l_l(a: LogicalType) -> LogicalType {
    a
}

#[serde_json_path::function]
fn l_v(a: LogicalType) -> ValueType<'static> {
    ValueType::Value(bool::from(a).into())
}

#[serde_json_path::function]
fn n_n(a: NodesType) -> NodesType {
    a
}

#[serde_json_path::function]
fn n_l(a: NodesType) -> LogicalType {
    (!a.is_empty()).into()
}

#[serde_json_path::function]
fn v_l(a: ValueType) -> LogicalType {
    a.as_value().is_some().into()
}

#[serde_json_path::function]
fn vv_v<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    if a.as_value().is_some() {
        a
    } else {
        b
    }
}

#[serde_json_path::function]
fn ll_l(a: LogicalType, b: LogicalType) -> LogicalType {
    (bool::from(a) || bool::from(b)).into()
}

pub struct Env {
    pub docs: Vec<Value>,
    pub queries: Vec<JsonPath>,
}

pub enum Out<'a> {
    Query(Result<JsonPath, ParseError>),
    Nodes(Result<Vec<&'a Value>, ParseError>),
    Located(Result<LocatedNodeList<'a>, ParseError>),
    Text(String),
}

/// the operations a thread may perform
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Parse(&'static str),
    FromStr(&'static str),
    Deserialize(&'static str),
    Eval(&'static str, usize),
    Located(&'static str, usize),
    Ext(&'static str, usize),
    Shared(usize, usize),
    SharedLocated(usize, usize),
    Display(usize),
}

pub fn run<'e>(env: &'e Env, op: Op) -> Out<'e> {
    match op {
        Op::Parse(q) => Out::Query(JsonPath::parse(q)),
        Op::FromStr(q) => Out::Query(q.parse()),
        Op::Deserialize(q) => match serde_json::from_value::<JsonPath>(Value::String(q.into())) {
            Ok(p) => Out::Query(Ok(p)),
            Err(e) => Out::Text(e.to_string()),
        },
        Op::Eval(q, d) => Out::Nodes(JsonPath::parse(q).map(|p| p.query(&env.docs[d]).all())),
        Op::Located(q, d) => Out::Located(JsonPath::parse(q).map(|p| p.query_located(&env.docs[d]).dedup())),
        Op::Ext(q, d) => Out::Nodes(JsonPath::parse(q).map(|p| env.docs[d].json_path(&p).all())),
        Op::Shared(q, d) => Out::Nodes(Ok(env.queries[q].query(&env.docs[d]).all())),
        Op::SharedLocated(q, d) => Out::Located(Ok(env.queries[q].query_located(&env.docs[d]))),
        Op::Display(q) => Out::Text(env.queries[q].to_string()),
    }
}
