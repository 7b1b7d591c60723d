//! Functions that exist where the functions feature does.
use serde_json::Value;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

#[serde_json_path::function]
fn vv(v: ValueType) -> ValueType {
    match v.as_value() {
        Some(Value::String(s)) => Value::from(s.to_uppercase()).into(),
        Some(v) => v.clone().into(),
        None => ValueType::Nothing,
    }
}

#[serde_json_path::function(name = "nl")]
fn many(n: NodesType) -> LogicalType {
    (n.all().len() > 1).into()
}

#[serde_json_path::function]
fn ln(l: LogicalType, n: NodesType) -> ValueType {
    if l == LogicalType::True {
        Value::from(n.all().len()).into()
    } else {
        ValueType::Nothing
    }
}
