//! Scalars of any type: `Value`, `Number`, `StringOrNumber`.

use std::{borrow::Cow, fmt::Debug};

use compose_spec::{Number, StringOrNumber, Value as Scalar};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use serde_yaml::Value as Yaml;

use crate::util::{agree, merge, opt, text};

pub fn run(op: &str, input: &Value) -> Value {
    let (t, v, s) = (text(input, "t"), text(input, "v"), text(input, "s"));
    merge(match op {
        "value.parse" => parse(s),
        "value.text" => from_text(s),
        "value.of" => of(t, v),
        "value.read" => read(&node(t, v)),
        "value.plain" => plain(v),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn shown<T: Debug>(value: &T) -> String {
    format!("{value:?}")
}

/// The same value however it was made (numbers may be NaN, so not by `==`).
fn one<T: Debug>(what: &str, mut made: Vec<T>) -> Result<T, Value> {
    agree(what, &made.iter().map(shown).collect::<Vec<_>>())?;
    Ok(made.swap_remove(0))
}

/// A signed integer that is not negative is written as, and so read back as, an unsigned one.
fn as_read<T: Debug>(value: &T) -> String {
    let shown = shown(value);
    if shown.contains("SignedInt(-") { shown } else { shown.replace("SignedInt(", "UnsignedInt(") }
}

/// How the value is written, having checked that it reads back.
fn yaml<T: Serialize + DeserializeOwned + Debug>(value: &T) -> Result<Value, Value> {
    let fail = |e: serde_yaml::Error| json!({ "cannot-write-or-read": e.to_string() });
    let written = serde_yaml::to_value(value).map_err(fail)?;
    let line = serde_yaml::to_string(value).map_err(fail)?;
    agree(
        "value written and read again",
        &[
            as_read(value),
            shown(&serde_yaml::from_value::<T>(written.clone()).map_err(fail)?),
            shown(&serde_yaml::from_str::<T>(&line).map_err(fail)?),
        ],
    )?;
    Ok(match &written {
        Yaml::Number(n) if n.is_f64() => json!({ "t": "f", "v": n.as_f64().unwrap_or_default().to_string() }),
        Yaml::Number(n) => json!({ "t": "i", "v": n.to_string() }),
        Yaml::String(s) => json!({ "t": "s", "v": s }),
        Yaml::Bool(b) => json!({ "t": "b", "v": b.to_string() }),
        other => json!({ "t": "?", "v": shown(other) }),
    })
}

fn view_number(number: Number) -> Result<Value, Value> {
    let kind = match number {
        Number::UnsignedInt(v) => {
            agree("as_unsigned_int", &[number.as_unsigned_int(), Some(v)])?;
            "uint"
        }
        Number::SignedInt(v) => {
            agree("as_signed_int", &[number.as_signed_int(), Some(v)])?;
            "int"
        }
        Number::Float(v) => {
            agree("as_float", &[number.as_float().map(f64::to_bits), Some(v.to_bits())])?;
            "float"
        }
    };
    agree("is_unsigned_int", &[kind == "uint", number.is_unsigned_int(), number.as_unsigned_int().is_some()])?;
    agree("is_signed_int", &[kind == "int", number.is_signed_int(), number.as_signed_int().is_some()])?;
    agree("is_float", &[kind == "float", number.is_float(), number.as_float().is_some()])?;
    Ok(json!({
        "kind": kind,
        "text": number.to_string(),
        "exp": [format!("{number:e}"), format!("{number:E}")],
        "u64": opt(u64::try_from(number).ok()),
        "i64": opt(i64::try_from(number).ok()),
        "f64": opt(f64::try_from(number).ok()),
        "yaml": yaml(&number)?,
    }))
}

fn maybe_number(number: Option<Number>) -> Result<Value, Value> {
    Ok(match number {
        Some(number) => json!([view_number(number)?]),
        None => json!([]),
    })
}

fn number_kind(number: Number) -> &'static str {
    match number {
        Number::UnsignedInt(_) => "uint",
        Number::SignedInt(_) => "int",
        Number::Float(_) => "float",
    }
}

fn view_value(value: &Scalar) -> Result<Value, Value> {
    let kind = match value {
        Scalar::String(s) => {
            agree("as_string", &[value.as_string(), Some(s)])?;
            "string"
        }
        Scalar::Number(n) => {
            agree("as_number", &[value.as_number().map(shown), Some(shown(n))])?;
            number_kind(*n)
        }
        Scalar::Bool(b) => {
            agree("as_bool", &[value.as_bool(), Some(*b)])?;
            "bool"
        }
    };
    agree("is_string", &[kind == "string", value.is_string(), value.as_string().is_some()])?;
    agree("is_bool", &[kind == "bool", value.is_bool(), value.as_bool().is_some()])?;
    agree("is_number", &[!matches!(kind, "bool" | "string"), value.is_number(), value.as_number().is_some()])?;
    let made = |value: &Scalar| value.clone();
    Ok(json!({
        "kind": kind,
        "text": one("text", vec![value.to_string(), String::from(made(value))])?,
        "number": maybe_number(Number::try_from(made(value)).ok())?,
        "u64": opt(u64::try_from(made(value)).ok()),
        "i64": opt(i64::try_from(made(value)).ok()),
        "f64": opt(f64::try_from(made(value)).ok()),
        "bool": opt(bool::try_from(made(value)).ok()),
        "yaml": yaml(value)?,
    }))
}

fn view_strnum(value: &StringOrNumber) -> Result<Value, Value> {
    let kind = match value {
        StringOrNumber::String(s) => {
            agree("as_string", &[value.as_string(), Some(s)])?;
            "string"
        }
        StringOrNumber::Number(n) => {
            agree("as_number", &[value.as_number().map(|n| shown(&n)), Some(shown(n))])?;
            number_kind(*n)
        }
    };
    agree("is_string", &[kind == "string", value.is_string(), value.as_string().is_some()])?;
    agree("is_number", &[kind != "string", value.is_number(), value.as_number().is_some()])?;
    Ok(json!({
        "kind": kind,
        "text": one("text", vec![value.to_string(), String::from(value.clone())])?,
        "number": maybe_number(Number::try_from(value.clone()).ok())?,
        "yaml": yaml(value)?,
    }))
}

fn parse(s: &str) -> Result<Value, Value> {
    let value = one("Value::parse", vec![Scalar::parse(s), Scalar::parse(s.to_owned())])?;
    let strnum = one("StringOrNumber::parse", vec![StringOrNumber::parse(s), StringOrNumber::parse(s.to_owned())])?;
    let number = one("Number", vec![s.parse::<Number>().ok(), Number::try_from(s).ok()])?;
    Ok(json!({ "value": view_value(&value)?, "strnum": view_strnum(&strnum)?, "number": maybe_number(number)? }))
}

fn from_text(s: &str) -> Result<Value, Value> {
    let value = one(
        "Value::from",
        vec![
            Scalar::from(s),
            Scalar::from(s.to_owned()),
            Scalar::from(Box::<str>::from(s)),
            Scalar::from(Cow::Borrowed(s)),
            Scalar::from(Cow::<str>::Owned(s.to_owned())),
        ],
    )?;
    let strnum = one(
        "StringOrNumber::from",
        vec![
            StringOrNumber::from(s),
            StringOrNumber::from(s.to_owned()),
            StringOrNumber::from(Box::<str>::from(s)),
            StringOrNumber::from(Cow::Borrowed(s)),
            StringOrNumber::from(Cow::<str>::Owned(s.to_owned())),
        ],
    )?;
    Ok(json!({ "value": view_value(&value)?, "strnum": view_strnum(&strnum)? }))
}

fn float(v: &str) -> f64 {
    v.parse().unwrap_or(f64::NAN)
}

fn of(t: &str, v: &str) -> Result<Value, Value> {
    let bad = |_| json!({ "bad-input": v });
    let number = match t {
        "u64" => {
            let v: u64 = v.parse().map_err(bad)?;
            one("Number::from", vec![Number::from(v), Number::UnsignedInt(v)])?;
            one("Value::from", vec![Scalar::from(v), Scalar::Number(v.into())])?;
            one("StringOrNumber::from", vec![StringOrNumber::from(v), StringOrNumber::Number(v.into())])?;
            Number::from(v)
        }
        "i64" => {
            let v: i64 = v.parse().map_err(bad)?;
            one("Number::from", vec![Number::from(v), Number::SignedInt(v)])?;
            one("Value::from", vec![Scalar::from(v), Scalar::Number(v.into())])?;
            one("StringOrNumber::from", vec![StringOrNumber::from(v), StringOrNumber::Number(v.into())])?;
            Number::from(v)
        }
        "f64" => {
            let v = float(v);
            one("Number::from", vec![Number::from(v), Number::Float(v)])?;
            one("Value::from", vec![Scalar::from(v), Scalar::Number(v.into())])?;
            one("StringOrNumber::from", vec![StringOrNumber::from(v), StringOrNumber::Number(v.into())])?;
            Number::from(v)
        }
        _ => {
            let value = one("Value::from", vec![Scalar::from(v == "true"), Scalar::Bool(v == "true")])?;
            return Ok(json!({ "value": view_value(&value)?, "strnum": [] }));
        }
    };
    Ok(json!({ "value": view_value(&number.into())?, "strnum": [view_strnum(&number.into())?] }))
}

fn node(t: &str, v: &str) -> Yaml {
    match t {
        "z" => Yaml::Null,
        "b" => Yaml::Bool(v == "true"),
        "i" => v.parse::<u64>().map(Yaml::from).or_else(|_| v.parse::<i64>().map(Yaml::from)).unwrap_or(Yaml::Null),
        "f" => float(v).into(),
        "l" => Yaml::Sequence(vec!["a".into()]),
        "m" => Yaml::Mapping([("a".into(), "b".into())].into_iter().collect()),
        _ => v.into(),
    }
}

fn view_read(
    value: Option<Scalar>,
    strnum: Option<StringOrNumber>,
    number: Option<Number>,
    maybe: Result<Option<Scalar>, ()>,
) -> Result<Value, Value> {
    if let Ok(Some(maybe)) = &maybe {
        agree("optional value", &[value.as_ref().map(shown), Some(shown(maybe))])?;
    }
    Ok(json!({
        "value": value.as_ref().map(view_value).transpose()?.map_or(json!([]), |v| json!([v])),
        "strnum": strnum.as_ref().map(view_strnum).transpose()?.map_or(json!([]), |v| json!([v])),
        "number": maybe_number(number)?,
        "maybe": match maybe { Ok(None) => "none", Ok(Some(_)) => "some", Err(()) => "refused" },
    }))
}

fn read(node: &Yaml) -> Result<Value, Value> {
    fn get<T: DeserializeOwned>(node: &Yaml) -> Result<T, ()> {
        serde_yaml::from_value(node.clone()).map_err(drop)
    }
    view_read(get(node).ok(), get(node).ok(), get(node).ok(), get(node))
}

/// Read from the text of a document.
fn plain(v: &str) -> Result<Value, Value> {
    fn get<T: DeserializeOwned>(v: &str) -> Result<T, ()> {
        serde_yaml::from_str(v).map_err(drop)
    }
    view_read(get(v).ok(), get(v).ok(), get(v).ok(), get(v))
}
