//! Settings given as a list or as a map.

use compose_spec::{ListOrMap, Map};
use serde_json::{json, Value};

use crate::{
    ops::document::build,
    util::{agree, merge, text},
};

pub fn run(op: &str, input: &Value) -> Value {
    merge(match op {
        "lm.convert" => convert(input),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn view_map(map: Map) -> Value {
    let entries: Vec<Value> = map
        .into_iter()
        .map(|(key, value)| {
            let value = value.map_or(json!([]), |value| {
                let kind = match &value {
                    compose_spec::Value::String(_) => "string",
                    compose_spec::Value::Bool(_) => "bool",
                    compose_spec::Value::Number(compose_spec::Number::UnsignedInt(_)) => "uint",
                    compose_spec::Value::Number(compose_spec::Number::SignedInt(_)) => "int",
                    compose_spec::Value::Number(compose_spec::Number::Float(_)) => "float",
                };
                json!([kind, value.to_string()])
            });
            json!({ "k": key.as_str(), "v": value })
        })
        .collect();
    json!({ "ok": true, "entries": entries })
}

fn convert(input: &Value) -> Result<Value, Value> {
    let value: ListOrMap =
        serde_yaml::from_value(build(&input["tree"])).map_err(|e| json!({ "refused": e.to_string() }))?;
    let is_list = input["tree"]["t"] == "l";
    agree("as_list", &[value.as_list().is_some(), matches!(value, ListOrMap::List(_)), is_list])?;
    agree("as_map", &[value.as_map().is_some(), matches!(value, ListOrMap::Map(_)), !is_list])?;
    let seps: Vec<char> = text(input, "seps").chars().collect();
    let map = value.clone().into_map_split_on(&seps);
    if seps == ['='] {
        agree("into_map", &[format!("{map:?}"), format!("{:?}", value.clone().into_map())])?;
    }
    Ok(json!({
        "empty": value.is_empty(),
        "list": value.into_list().into_iter().collect::<Vec<_>>(),
        "map": map.map_or_else(|_| json!({ "ok": false }), view_map),
    }))
}
