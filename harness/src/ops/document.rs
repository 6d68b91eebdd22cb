//! Whole documents as trees `[k, t, v, c]`: what is accepted and what is written back.

use compose_spec::Compose;
use serde_json::{json, Value};
use serde_yaml::{Mapping, Value as Yaml};

use crate::util::{agree, merge, text, yaml_build};

pub fn run(op: &str, input: &Value) -> Value {
    merge(match op {
        "doc.accept" => accept(input),
        "doc.write" => write(input),
        "doc.roundtrip" => roundtrip(input),
        "doc.order" => order(input),
        "doc.equal" => equal(input),
        "doc.json" => other(input),
        "doc.twice" => twice(input),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

/// The specification's tree as YAML.
pub fn build(node: &Value) -> Yaml {
    let children = || node["c"].as_array().into_iter().flatten();
    match text(node, "t") {
        "l" => Yaml::Sequence(children().map(build).collect()),
        "m" | "o" => children().map(|c| (Yaml::from(text(c, "k")), build(c))).collect::<Mapping>().into(),
        _ => yaml_build(node),
    }
}

/// YAML as the specification writes it.
pub fn view(key: &str, value: &Yaml) -> Value {
    let node = |t: &str, v: String, c: Vec<Value>| json!({ "k": key, "t": t, "v": v, "c": c });
    match value {
        Yaml::Null => node("z", String::new(), Vec::new()),
        Yaml::Bool(b) => node("b", b.to_string(), Vec::new()),
        Yaml::Number(n) if n.is_f64() => node("f", n.to_string(), Vec::new()),
        Yaml::Number(n) => node("i", n.to_string(), Vec::new()),
        Yaml::String(s) => node("s", s.clone(), Vec::new()),
        Yaml::Sequence(items) => node("l", String::new(), items.iter().map(|v| view("", v)).collect()),
        Yaml::Mapping(map) => {
            node("m", String::new(), map.iter().map(|(k, v)| view(k.as_str().unwrap_or("!not text"), v)).collect())
        }
        Yaml::Tagged(_) => node("tagged", String::new(), Vec::new()),
    }
}

/// Read a tree; text that says the same (every scalar written so that it keeps its type) must agree.
/// Text is more lenient only where `serde_yaml` hands out a plain scalar as whatever is asked for, so
/// nothing is required of the text of a refused tree.
fn read(doc: &Yaml) -> Result<Option<Compose>, Value> {
    let Ok(tree) = serde_yaml::from_value::<Compose>(doc.clone()) else {
        return Ok(None);
    };
    let text = serde_yaml::to_string(doc).map_err(|e| json!({ "refused": e.to_string() }))?;
    let parsed: Compose = serde_yaml::from_str(&text).map_err(|e| json!({ "cannot-read-text": e.to_string() }))?;
    agree("tree and text", &[&tree, &parsed])?;
    Ok(Some(tree))
}

fn accept(input: &Value) -> Result<Value, Value> {
    Ok(json!({ "ok": read(&build(input))?.is_some() }))
}

/// Whether two documents are equal: the same asked from both sides, of values read from trees and from text,
/// and of clones; both are what they are.
fn equal(input: &Value) -> Result<Value, Value> {
    let both = (read(&build(&input["a"]))?, read(&build(&input["b"]))?);
    let (Some(a), Some(b)) = both else {
        return Ok(json!({ "ok": false }));
    };
    if a != a.clone() || b.clone() != b {
        return Err(json!({ "not-equal-to-its-clone": true }));
    }
    let same = a == b;
    if (b == a) != same || (a != b) == same {
        return Err(json!({ "disagree": "either side" }));
    }
    Ok(json!({ "ok": true, "same": same }))
}

/// The same document in another format: read alike, and written so that it says the same. (Of what is refused
/// nothing is required: `serde_json` lets a list stand for any derived structure.)
fn other(input: &Value) -> Result<Value, Value> {
    let doc = build(input);
    let Ok(compose) = serde_yaml::from_value::<Compose>(doc.clone()) else {
        return Ok(json!({ "ok": false }));
    };
    let json = serde_json::to_value(&doc).map_err(|e| json!({ "no-json": e.to_string() }))?;
    let line = json.to_string();
    let refused = |e: &dyn std::fmt::Display| json!({ "refused": e.to_string() });
    agree("yaml and json", &[
        &compose,
        &serde_json::from_value(json).map_err(|e| refused(&e))?,
        &serde_json::from_str(&line).map_err(|e| refused(&e))?,
        &serde_json::from_slice(line.as_bytes()).map_err(|e| refused(&e))?,
        &serde_json::from_reader(line.as_bytes()).map_err(|e| refused(&e))?,
        &serde_yaml::from_str(&line).map_err(|e| refused(&e))?,
    ])?;
    let tree = written(&compose)?;
    let json = serde_json::to_string(&compose).map_err(|e| json!({ "cannot-write-json": e.to_string() }))?;
    agree("written as json", &[&serde_json::to_string(&tree).map_err(|e| json!({ "no-json": e.to_string() }))?, &json])?;
    Ok(json!({ "ok": true, "tree": view("", &tree) }))
}

/// The tree on one line, in JSON, which is YAML; a key may stand in a mapping more than once.
fn line(node: &Value) -> String {
    let children = |with_key: bool| {
        let one = |c: &Value| if with_key { format!("{}: {}", json!(text(c, "k")), line(c)) } else { line(c) };
        node["c"].as_array().into_iter().flatten().map(one).collect::<Vec<_>>().join(", ")
    };
    match text(node, "t") {
        "l" => format!("[{}]", children(false)),
        "m" | "o" => format!("{{{}}}", children(true)),
        _ => serde_json::to_string(&yaml_build(node)).unwrap_or_default(),
    }
}

/// A document in which something may be given twice, which a tree cannot say: read from text.
fn twice(input: &Value) -> Result<Value, Value> {
    let line = line(input);
    let read = [
        serde_yaml::from_str::<Compose>(&line).ok(),
        serde_yaml::from_slice(line.as_bytes()).ok(),
        serde_yaml::from_reader(line.as_bytes()).ok(),
        serde_json::from_str(&line).ok(),
        Compose::options().apply_merge(false).from_yaml_str(&line).ok(),
    ];
    agree("readers", &read)?;
    Ok(json!({ "ok": read[0].is_some() }))
}

fn written(compose: &Compose) -> Result<Yaml, Value> {
    serde_yaml::to_value(compose).map_err(|e| json!({ "cannot-write": e.to_string() }))
}

fn write(input: &Value) -> Result<Value, Value> {
    let Ok(compose) = serde_yaml::from_value::<Compose>(build(input)) else {
        return Ok(json!({ "ok": false }));
    };
    Ok(json!({ "ok": true, "tree": view("", &written(&compose)?) }))
}

fn roundtrip(input: &Value) -> Result<Value, Value> {
    let Ok(compose) = serde_yaml::from_value::<Compose>(build(input)) else {
        return Ok(json!({ "survives": true }));
    };
    let tree = written(&compose)?;
    let text = serde_yaml::to_string(&compose).map_err(|e| json!({ "cannot-write": e.to_string() }))?;
    let again: Compose =
        serde_yaml::from_value(tree.clone()).map_err(|e| json!({ "cannot-read-tree": e.to_string() }))?;
    let parsed: Compose = serde_yaml::from_str(&text).map_err(|e| json!({ "cannot-read-text": e.to_string() }))?;
    let same = again == compose && parsed == compose && written(&again)? == tree
        && serde_yaml::to_string(&parsed).ok().as_ref() == Some(&text);
    Ok(json!({ "survives": same }))
}

/// All mappings sorted by key.
fn sorted(value: &Yaml) -> Yaml {
    match value {
        Yaml::Mapping(map) => {
            let mut entries: Vec<(String, Yaml)> =
                map.iter().map(|(k, v)| (k.as_str().unwrap_or_default().to_owned(), sorted(v))).collect();
            entries.sort_by(|a, b| a.0.cmp(&b.0));
            entries.into_iter().map(|(k, v)| (k.into(), v)).collect::<Mapping>().into()
        }
        Yaml::Sequence(items) => Yaml::Sequence(items.iter().map(sorted).collect()),
        other => other.clone(),
    }
}

/// All mappings permuted: `n` selects how.
fn permuted(value: &Yaml, n: usize) -> Yaml {
    match value {
        Yaml::Mapping(map) => {
            let mut entries: Vec<(Yaml, Yaml)> = map.iter().map(|(k, v)| (k.clone(), permuted(v, n))).collect();
            match n {
                0 => entries.reverse(),
                1 if !entries.is_empty() => entries.rotate_left(1),
                2 if !entries.is_empty() => entries.rotate_right(1),
                _ => {
                    let (even, odd): (Vec<_>, Vec<_>) = entries.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
                    entries = odd.into_iter().chain(even).map(|(_, e)| e).collect();
                }
            }
            entries.into_iter().collect::<Mapping>().into()
        }
        Yaml::Sequence(items) => Yaml::Sequence(items.iter().map(|v| permuted(v, n)).collect()),
        other => other.clone(),
    }
}

fn order(input: &Value) -> Result<Value, Value> {
    let doc = build(input);
    let view = |doc: Yaml| match serde_yaml::from_value::<Compose>(doc) {
        Ok(compose) => written(&compose).map(|tree| Some(sorted(&tree))),
        Err(_) => Ok(None),
    };
    let original = view(doc.clone())?;
    let mut same = true;
    for n in 0..4 {
        same &= view(permuted(&doc, n))? == original;
    }
    Ok(json!({ "ok": original.is_some(), "same": same }))
}
