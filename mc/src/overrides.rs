//! Custom functions with the names of built-in ones (second binary only).
#![allow(clippy::all)]
use crate::funcs::{ret_l, ret_n, ret_v, A};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

#[serde_json_path::function(name = "length")]
fn c0<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("length", vec![A::N(p0)])
}

#[serde_json_path::function(name = "count")]
fn c1<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("count", vec![A::V(p0)])
}

#[serde_json_path::function(name = "match")]
fn c2<'a>(p0: ValueType<'a>) -> LogicalType {
    ret_l("match", vec![A::V(p0)])
}

#[serde_json_path::function(name = "search")]
fn c3<'a>(p0: ValueType<'a>, p1: ValueType<'a>) -> ValueType<'a> {
    ret_v("search", vec![A::V(p0), A::V(p1)])
}

#[serde_json_path::function(name = "value")]
fn c4(p0: LogicalType) -> LogicalType {
    ret_l("value", vec![A::L(p0)])
}

pub const TABLE: &[(&str, &str, char)] = &[
    ("length", "n", 'n'),
    ("count", "v", 'v'),
    ("match", "v", 'l'),
    ("search", "vv", 'v'),
    ("value", "l", 'l'),
];
