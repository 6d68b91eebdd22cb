//! Small helpers shared by the operations.

use std::{
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
};

use serde_json::{json, Value};

pub fn hash64<T: Hash + ?Sized>(value: &T) -> u64 {
    let mut hasher = DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

/// Optional text as the specification writes it: `[]` or `[text]`.
pub fn opt<T: ToString>(value: Option<T>) -> Value {
    value.map_or_else(|| json!([]), |value| json!([value.to_string()]))
}

/// The observation of a rejected input.
pub fn rejected() -> Value {
    json!({ "ok": false })
}

/// The string member `key` of a JSON object.
pub fn text<'a>(input: &'a Value, key: &str) -> &'a str {
    input[key].as_str().unwrap_or_default()
}

/// Check that several observations of the same fact agree; returns a discrepancy otherwise.
pub fn agree<T: PartialEq + Debug>(what: &str, values: &[T]) -> Result<(), Value> {
    for value in values {
        if *value != values[0] {
            return Err(json!({ "disagreement": what, "values": format!("{values:?}") }));
        }
    }
    Ok(())
}

/// Flatten `Ok`/`Err` observations.
pub fn merge(result: Result<Value, Value>) -> Value {
    result.unwrap_or_else(|value| value)
}

/// Deserialize `T` from the YAML string scalar `s` (not via text, so that every string is possible).
pub fn from_yaml_string<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
    serde_yaml::from_value(serde_yaml::Value::String(s.to_owned())).map_err(|e| e.to_string())
}

/// Serialize to a YAML value.
pub fn to_yaml<T: serde::Serialize>(value: &T) -> serde_yaml::Value {
    serde_yaml::to_value(value).unwrap_or_else(|e| serde_yaml::Value::String(format!("!error {e}")))
}

/// Every way of making a value must agree on whether there is one and on which.
pub fn same<T: PartialEq + Debug>(what: &str, mut made: Vec<Option<T>>) -> Result<Option<T>, Value> {
    for other in &made[1..] {
        if *other != made[0] {
            return Err(json!({ "disagreement": what, "values": format!("{made:?}") }));
        }
    }
    Ok(made.swap_remove(0))
}

/// A scalar (or, untyped, anything) from YAML as the specification writes it: `{t, v}`.
pub fn yaml_view(value: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match value {
        Y::Null => json!({ "t": "z", "v": "" }),
        Y::Bool(b) => json!({ "t": "b", "v": b.to_string() }),
        Y::Number(n) if n.is_f64() => json!({ "t": "f", "v": n.to_string() }),
        Y::Number(n) => json!({ "t": "i", "v": n.to_string() }),
        Y::String(s) => json!({ "t": "s", "v": s }),
        Y::Sequence(seq) => json!({ "t": "l", "v": seq.iter().map(yaml_view).collect::<Vec<_>>() }),
        Y::Mapping(map) => json!({
            "t": "m",
            "v": map.iter().map(|(k, v)| json!([yaml_view(k)["v"], yaml_view(v)])).collect::<Vec<_>>(),
        }),
        Y::Tagged(_) => json!({ "t": "tagged", "v": "" }),
    }
}

/// The specification's `{t, v}` as YAML.
pub fn yaml_build(value: &Value) -> serde_yaml::Value {
    use serde_yaml::Value as Y;
    let v = &value["v"];
    let scalar = || v.as_str().map_or_else(|| v.to_string(), str::to_owned);
    match text(value, "t") {
        "z" => Y::Null,
        "b" => Y::Bool(scalar() == "true"),
        "i" => {
            let s = scalar();
            s.parse::<u64>()
                .map(Y::from)
                .or_else(|_| s.parse::<i64>().map(Y::from))
                .unwrap_or_else(|_| Y::from(s.parse::<f64>().unwrap_or(f64::NAN)))
        }
        "f" => Y::from(match scalar().as_str() {
            ".nan" => f64::NAN,
            ".inf" => f64::INFINITY,
            "-.inf" => f64::NEG_INFINITY,
            s => s.parse::<f64>().unwrap_or(f64::NAN),
        }),
        "s" => Y::String(scalar()),
        "l" => Y::Sequence(v.as_array().into_iter().flatten().map(yaml_build).collect()),
        "m" => Y::Mapping(
            v.as_array()
                .into_iter()
                .flatten()
                .map(|kv| (Y::String(kv[0].as_str().unwrap_or_default().to_owned()), yaml_build(&kv[1])))
                .collect(),
        ),
        _ => Y::String("!bad".into()),
    }
}
