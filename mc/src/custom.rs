//! Custom functions, one per signature, generated by gen_funcs.py; the bodies are in `funcs`.
#![allow(clippy::all)]
use crate::funcs::{ret_l, ret_n, ret_v, A};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

#[serde_json_path::function(name = "x__v")]
fn c0() -> ValueType<'static> {
    ret_v("x__v", vec![])
}

#[serde_json_path::function(name = "x__n")]
fn c1() -> NodesType<'static> {
    ret_n("x__n", vec![])
}

#[serde_json_path::function(name = "x__l")]
fn c2() -> LogicalType {
    ret_l("x__l", vec![])
}

#[serde_json_path::function(name = "x_v_v")]
fn c3<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_v_v", vec![A::V(p0)])
}

#[serde_json_path::function(name = "x_v_n")]
fn c4<'a>(p0: ValueType<'a>) -> NodesType<'a> {
    ret_n("x_v_n", vec![A::V(p0)])
}

#[serde_json_path::function(name = "x_v_l")]
fn c5<'a>(p0: ValueType<'a>) -> LogicalType {
    ret_l("x_v_l", vec![A::V(p0)])
}

#[serde_json_path::function(name = "x_n_v")]
fn c6<'a>(p0: NodesType<'a>) -> ValueType<'a> {
    ret_v("x_n_v", vec![A::N(p0)])
}

#[serde_json_path::function(name = "x_n_n")]
fn c7<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("x_n_n", vec![A::N(p0)])
}

#[serde_json_path::function(name = "x_n_l")]
fn c8<'a>(p0: NodesType<'a>) -> LogicalType {
    ret_l("x_n_l", vec![A::N(p0)])
}

#[serde_json_path::function(name = "x_l_v")]
fn c9(p0: LogicalType) -> ValueType<'static> {
    ret_v("x_l_v", vec![A::L(p0)])
}

#[serde_json_path::function(name = "x_l_n")]
fn c10(p0: LogicalType) -> NodesType<'static> {
    ret_n("x_l_n", vec![A::L(p0)])
}

#[serde_json_path::function(name = "x_l_l")]
fn c11(p0: LogicalType) -> LogicalType {
    ret_l("x_l_l", vec![A::L(p0)])
}

#[serde_json_path::function(name = "x_vv_v")]
fn c12<'a>(p0: ValueType<'a>, p1: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_vv_v", vec![A::V(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_vv_n")]
fn c13<'a>(p0: ValueType<'a>, p1: ValueType<'a>) -> NodesType<'a> {
    ret_n("x_vv_n", vec![A::V(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_vv_l")]
fn c14<'a>(p0: ValueType<'a>, p1: ValueType<'a>) -> LogicalType {
    ret_l("x_vv_l", vec![A::V(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_vn_v")]
fn c15<'a>(p0: ValueType<'a>, p1: NodesType<'a>) -> ValueType<'a> {
    ret_v("x_vn_v", vec![A::V(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_vn_n")]
fn c16<'a>(p0: ValueType<'a>, p1: NodesType<'a>) -> NodesType<'a> {
    ret_n("x_vn_n", vec![A::V(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_vn_l")]
fn c17<'a>(p0: ValueType<'a>, p1: NodesType<'a>) -> LogicalType {
    ret_l("x_vn_l", vec![A::V(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_vl_v")]
fn c18<'a>(p0: ValueType<'a>, p1: LogicalType) -> ValueType<'a> {
    ret_v("x_vl_v", vec![A::V(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_vl_n")]
fn c19<'a>(p0: ValueType<'a>, p1: LogicalType) -> NodesType<'a> {
    ret_n("x_vl_n", vec![A::V(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_vl_l")]
fn c20<'a>(p0: ValueType<'a>, p1: LogicalType) -> LogicalType {
    ret_l("x_vl_l", vec![A::V(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_nv_v")]
fn c21<'a>(p0: NodesType<'a>, p1: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_nv_v", vec![A::N(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_nv_n")]
fn c22<'a>(p0: NodesType<'a>, p1: ValueType<'a>) -> NodesType<'a> {
    ret_n("x_nv_n", vec![A::N(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_nv_l")]
fn c23<'a>(p0: NodesType<'a>, p1: ValueType<'a>) -> LogicalType {
    ret_l("x_nv_l", vec![A::N(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_nn_v")]
fn c24<'a>(p0: NodesType<'a>, p1: NodesType<'a>) -> ValueType<'a> {
    ret_v("x_nn_v", vec![A::N(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_nn_n")]
fn c25<'a>(p0: NodesType<'a>, p1: NodesType<'a>) -> NodesType<'a> {
    ret_n("x_nn_n", vec![A::N(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_nn_l")]
fn c26<'a>(p0: NodesType<'a>, p1: NodesType<'a>) -> LogicalType {
    ret_l("x_nn_l", vec![A::N(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_nl_v")]
fn c27<'a>(p0: NodesType<'a>, p1: LogicalType) -> ValueType<'a> {
    ret_v("x_nl_v", vec![A::N(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_nl_n")]
fn c28<'a>(p0: NodesType<'a>, p1: LogicalType) -> NodesType<'a> {
    ret_n("x_nl_n", vec![A::N(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_nl_l")]
fn c29<'a>(p0: NodesType<'a>, p1: LogicalType) -> LogicalType {
    ret_l("x_nl_l", vec![A::N(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_lv_v")]
fn c30<'a>(p0: LogicalType, p1: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_lv_v", vec![A::L(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_lv_n")]
fn c31<'a>(p0: LogicalType, p1: ValueType<'a>) -> NodesType<'a> {
    ret_n("x_lv_n", vec![A::L(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_lv_l")]
fn c32<'a>(p0: LogicalType, p1: ValueType<'a>) -> LogicalType {
    ret_l("x_lv_l", vec![A::L(p0), A::V(p1)])
}

#[serde_json_path::function(name = "x_ln_v")]
fn c33<'a>(p0: LogicalType, p1: NodesType<'a>) -> ValueType<'a> {
    ret_v("x_ln_v", vec![A::L(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_ln_n")]
fn c34<'a>(p0: LogicalType, p1: NodesType<'a>) -> NodesType<'a> {
    ret_n("x_ln_n", vec![A::L(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_ln_l")]
fn c35<'a>(p0: LogicalType, p1: NodesType<'a>) -> LogicalType {
    ret_l("x_ln_l", vec![A::L(p0), A::N(p1)])
}

#[serde_json_path::function(name = "x_ll_v")]
fn c36(p0: LogicalType, p1: LogicalType) -> ValueType<'static> {
    ret_v("x_ll_v", vec![A::L(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_ll_n")]
fn c37(p0: LogicalType, p1: LogicalType) -> NodesType<'static> {
    ret_n("x_ll_n", vec![A::L(p0), A::L(p1)])
}

#[serde_json_path::function(name = "x_ll_l")]
fn c38(p0: LogicalType, p1: LogicalType) -> LogicalType {
    ret_l("x_ll_l", vec![A::L(p0), A::L(p1)])
}

#[serde_json_path::function(name = "g")]
fn c39<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("g", vec![A::V(p0)])
}

#[serde_json_path::function(name = "nullable")]
fn c40<'a>(p0: ValueType<'a>) -> LogicalType {
    ret_l("nullable", vec![A::V(p0)])
}

#[serde_json_path::function(name = "true_")]
fn c41<'a>(p0: NodesType<'a>) -> LogicalType {
    ret_l("true_", vec![A::N(p0)])
}

#[serde_json_path::function(name = "false1")]
fn c42<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("false1", vec![A::V(p0)])
}

#[serde_json_path::function(name = "nulls")]
fn c43<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("nulls", vec![A::N(p0)])
}

#[serde_json_path::function(name = "true")]
fn c44<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("true", vec![A::V(p0)])
}

#[serde_json_path::function(name = "null")]
fn c45<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("null", vec![A::N(p0)])
}

#[serde_json_path::function(name = "false")]
fn c46() -> LogicalType {
    ret_l("false", vec![])
}

#[serde_json_path::function(name = "a1")]
fn c47<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("a1", vec![A::V(p0)])
}

#[serde_json_path::function(name = "a_")]
fn c48<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("a_", vec![A::N(p0)])
}

#[serde_json_path::function(name = "z9_9")]
fn c49(p0: LogicalType) -> LogicalType {
    ret_l("z9_9", vec![A::L(p0)])
}

#[serde_json_path::function(name = "lengthy")]
fn c50<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("lengthy", vec![A::V(p0)])
}

#[serde_json_path::function(name = "matches")]
fn c51<'a>(p0: ValueType<'a>, p1: ValueType<'a>) -> LogicalType {
    ret_l("matches", vec![A::V(p0), A::V(p1)])
}

#[serde_json_path::function(name = "counts")]
fn c52<'a>(p0: NodesType<'a>) -> ValueType<'a> {
    ret_v("counts", vec![A::N(p0)])
}

#[serde_json_path::function(name = "x_vnl_v")]
fn c53<'a>(p0: ValueType<'a>, p1: NodesType<'a>, p2: LogicalType) -> ValueType<'a> {
    ret_v("x_vnl_v", vec![A::V(p0), A::N(p1), A::L(p2)])
}

#[serde_json_path::function(name = "x_lll_l")]
fn c54(p0: LogicalType, p1: LogicalType, p2: LogicalType) -> LogicalType {
    ret_l("x_lll_l", vec![A::L(p0), A::L(p1), A::L(p2)])
}

#[serde_json_path::function(name = "x_nnv_n")]
fn c55<'a>(p0: NodesType<'a>, p1: NodesType<'a>, p2: ValueType<'a>) -> NodesType<'a> {
    ret_n("x_nnv_n", vec![A::N(p0), A::N(p1), A::V(p2)])
}

#[serde_json_path::function(name = "x_vvvv_v")]
fn c56<'a>(p0: ValueType<'a>, p1: ValueType<'a>, p2: ValueType<'a>, p3: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_vvvv_v", vec![A::V(p0), A::V(p1), A::V(p2), A::V(p3)])
}

#[serde_json_path::function(name = "x_nlvnl_v")]
fn c57<'a>(p0: NodesType<'a>, p1: LogicalType, p2: ValueType<'a>, p3: NodesType<'a>, p4: LogicalType) -> ValueType<'a> {
    ret_v("x_nlvnl_v", vec![A::N(p0), A::L(p1), A::V(p2), A::N(p3), A::L(p4)])
}

#[serde_json_path::function(name = "x_vvvvvvvv_v")]
fn c58<'a>(p0: ValueType<'a>, p1: ValueType<'a>, p2: ValueType<'a>, p3: ValueType<'a>, p4: ValueType<'a>, p5: ValueType<'a>, p6: ValueType<'a>, p7: ValueType<'a>) -> ValueType<'a> {
    ret_v("x_vvvvvvvv_v", vec![A::V(p0), A::V(p1), A::V(p2), A::V(p3), A::V(p4), A::V(p5), A::V(p6), A::V(p7)])
}

#[serde_json_path::function]
fn by_ident<'a>(p0: ValueType<'a>) -> ValueType<'a> {
    ret_v("by_ident", vec![A::V(p0)])
}

#[serde_json_path::function]
fn by_ident_n<'a>(p0: NodesType<'a>) -> NodesType<'a> {
    ret_n("by_ident_n", vec![A::N(p0)])
}

#[serde_json_path::function]
fn q<'a>(p0: NodesType<'a>) -> LogicalType {
    ret_l("q", vec![A::N(p0)])
}

pub const TABLE: &[(&str, &str, char)] = &[
    ("x__v", "", 'v'),
    ("x__n", "", 'n'),
    ("x__l", "", 'l'),
    ("x_v_v", "v", 'v'),
    ("x_v_n", "v", 'n'),
    ("x_v_l", "v", 'l'),
    ("x_n_v", "n", 'v'),
    ("x_n_n", "n", 'n'),
    ("x_n_l", "n", 'l'),
    ("x_l_v", "l", 'v'),
    ("x_l_n", "l", 'n'),
    ("x_l_l", "l", 'l'),
    ("x_vv_v", "vv", 'v'),
    ("x_vv_n", "vv", 'n'),
    ("x_vv_l", "vv", 'l'),
    ("x_vn_v", "vn", 'v'),
    ("x_vn_n", "vn", 'n'),
    ("x_vn_l", "vn", 'l'),
    ("x_vl_v", "vl", 'v'),
    ("x_vl_n", "vl", 'n'),
    ("x_vl_l", "vl", 'l'),
    ("x_nv_v", "nv", 'v'),
    ("x_nv_n", "nv", 'n'),
    ("x_nv_l", "nv", 'l'),
    ("x_nn_v", "nn", 'v'),
    ("x_nn_n", "nn", 'n'),
    ("x_nn_l", "nn", 'l'),
    ("x_nl_v", "nl", 'v'),
    ("x_nl_n", "nl", 'n'),
    ("x_nl_l", "nl", 'l'),
    ("x_lv_v", "lv", 'v'),
    ("x_lv_n", "lv", 'n'),
    ("x_lv_l", "lv", 'l'),
    ("x_ln_v", "ln", 'v'),
    ("x_ln_n", "ln", 'n'),
    ("x_ln_l", "ln", 'l'),
    ("x_ll_v", "ll", 'v'),
    ("x_ll_n", "ll", 'n'),
    ("x_ll_l", "ll", 'l'),
    ("g", "v", 'v'),
    ("nullable", "v", 'l'),
    ("true_", "n", 'l'),
    ("false1", "v", 'v'),
    ("nulls", "n", 'n'),
    ("true", "v", 'v'),
    ("null", "n", 'n'),
    ("false", "", 'l'),
    ("a1", "v", 'v'),
    ("a_", "n", 'n'),
    ("z9_9", "l", 'l'),
    ("lengthy", "v", 'v'),
    ("matches", "vv", 'l'),
    ("counts", "n", 'v'),
    ("x_vnl_v", "vnl", 'v'),
    ("x_lll_l", "lll", 'l'),
    ("x_nnv_n", "nnv", 'n'),
    ("x_vvvv_v", "vvvv", 'v'),
    ("x_nlvnl_v", "nlvnl", 'v'),
    ("x_vvvvvvvv_v", "vvvvvvvv", 'v'),
    ("by_ident", "v", 'v'),
    ("by_ident_n", "n", 'n'),
    ("q", "n", 'l'),
];
