//! Whole documents: validation.

use compose_spec::{Compose, ValidationError};
use serde_json::{json, Value};
use serde_yaml::{Mapping, Value as Yaml};

use crate::util::{agree, merge, text};

pub fn run(op: &str, input: &Value) -> Value {
    merge(match op {
        "compose.validate" => validate(input),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn map(entries: Vec<(&str, Yaml)>) -> Yaml {
    Yaml::Mapping(entries.into_iter().map(|(k, v)| (k.into(), v)).collect())
}

/// What a service uses, as the text a user would write.
fn service(uses: &Value) -> Yaml {
    let mut service = Mapping::new();
    let mut push = |field: &str, item: Yaml| {
        let list = service.entry(field.into()).or_insert_with(|| Yaml::Sequence(Vec::new()));
        if let Yaml::Sequence(list) = list {
            list.push(item);
        }
    };
    let mut networks = Mapping::new();
    let mut build_secrets = Vec::new();
    for (i, u) in uses.as_array().into_iter().flatten().enumerate() {
        let name = text(u, "name");
        match (text(u, "kind"), text(u, "form")) {
            ("network", "list") => push("networks", name.into()),
            ("network", "map") => {
                networks.insert(name.into(), Yaml::Null);
            }
            ("network", "map-set") => {
                networks.insert(name.into(), map(vec![("priority", 5.into())]));
            }
            ("volume", "short") => push("volumes", format!("{name}:/v{i}").into()),
            ("volume", "short-ro") => push("volumes", format!("{name}:/v{i}:ro").into()),
            ("volume", "long") => push(
                "volumes",
                map(vec![("type", "volume".into()), ("source", name.into()), ("target", format!("/v{i}").into())]),
            ),
            ("volume", "short-z") => push("volumes", format!("{name}:/v{i}:rw,z").into()),
            ("volume", "long-set") => push(
                "volumes",
                map(vec![
                    ("type", "volume".into()),
                    ("source", name.into()),
                    ("target", format!("/v{i}").into()),
                    ("read_only", true.into()),
                    ("consistency", "cached".into()),
                    ("volume", map(vec![("nocopy", true.into()), ("subpath", "a/b".into())])),
                ]),
            ),
            ("volume", "long-ext") => push(
                "volumes",
                map(vec![
                    ("type", "volume".into()),
                    ("source", name.into()),
                    ("target", format!("/v{i}").into()),
                    ("volume", map(vec![("x-a", 1.into())])),
                    ("x-b", Yaml::Null),
                ]),
            ),
            ("volume", "anonymous-long") => push(
                "volumes",
                map(vec![("type", "volume".into()), ("target", format!("/{name}").into()), ("read_only", true.into())]),
            ),
            ("volume", "bind") => push("volumes", format!("./{name}:/v{i}").into()),
            ("volume", "bind-long") => push(
                "volumes",
                map(vec![("type", "bind".into()), ("source", format!("./{name}").into()), ("target", format!("/v{i}").into())]),
            ),
            ("volume", "cluster") => push(
                "volumes",
                map(vec![("type", "cluster".into()), ("source", name.into()), ("target", format!("/v{i}").into())]),
            ),
            ("volume", "anonymous") => push("volumes", format!("/{name}").into()),
            ("config", "short") => push("configs", name.into()),
            ("config", "long") => push("configs", map(vec![("source", name.into()), ("target", "/c".into())])),
            ("config" | "secret", "long-set") => push(
                if text(u, "kind") == "config" { "configs" } else { "secrets" },
                map(vec![
                    ("source", name.into()),
                    ("target", "t".into()),
                    ("uid", "5".into()),
                    ("gid", "6".into()),
                    ("mode", 0o440.into()),
                    ("x-c", "d".into()),
                ]),
            ),
            ("secret", "short") => push("secrets", name.into()),
            ("secret", "long") => push("secrets", map(vec![("source", name.into()), ("target", "s".into())])),
            ("secret", "build") => build_secrets.push(Yaml::from(name)),
            ("secret", "build-long") => build_secrets.push(map(vec![("source", name.into()), ("target", "s".into())])),
            _ => push("bad-input", Yaml::Null),
        }
    }
    if !networks.is_empty() {
        service.insert("networks".into(), networks.into());
    }
    if !build_secrets.is_empty() {
        service.insert("build".into(), map(vec![("context", ".".into()), ("secrets", build_secrets.into())]));
    }
    service.into()
}

fn document(input: &Value) -> Yaml {
    let mut doc = Mapping::new();
    let services: Mapping = input["services"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|s| (text(s, "name").into(), service(&s["uses"])))
        .collect();
    doc.insert("services".into(), services.into());
    for def in input["defs"].as_array().into_iter().flatten() {
        let external = || map(vec![("external", true.into()), ("name", "other".into())]);
        let (field, value) = match (text(def, "kind"), text(def, "form")) {
            ("network", "plain") => ("networks", Yaml::Null),
            ("network", "set") => ("networks", map(vec![("driver", "bridge".into()), ("name", "n".into())])),
            ("volume", "plain") => ("volumes", Yaml::Null),
            ("volume", "set") => ("volumes", map(vec![("driver", "local".into()), ("x-e", 1.into())])),
            ("config", "plain") => ("configs", map(vec![("content", "c".into())])),
            ("config", "set") => ("configs", map(vec![("file", "./f".into()), ("labels", map(vec![("a", 1.into())]))])),
            ("secret", "plain") => ("secrets", map(vec![("environment", "E".into())])),
            ("secret", "set") => ("secrets", map(vec![("file", "./f".into()), ("driver", "d".into())])),
            (kind, "external") => {
                let field = match kind {
                    "network" => "networks",
                    "volume" => "volumes",
                    "config" => "configs",
                    _ => "secrets",
                };
                (field, external())
            }
            _ => ("bad-input", Yaml::Null),
        };
        let section = doc.entry(field.into()).or_insert_with(|| Mapping::new().into());
        if let Yaml::Mapping(section) = section {
            section.insert(text(def, "name").into(), value);
        }
    }
    doc.into()
}

/// Kind, service (if named) and resource of a validation error.
fn view(result: &Result<(), ValidationError>) -> (String, Option<(String, String)>) {
    match result {
        Ok(()) => (String::new(), None),
        Err(error) => {
            let text = error.to_string();
            let words: Vec<&str> = text.split('`').collect();
            let kind = words[0].trim().to_owned();
            let resource = words.get(1).copied().unwrap_or_default().to_owned();
            let service = if text.contains("(used in the `") { words.get(3).copied().unwrap_or_default() } else { "" };
            (kind, Some((service.to_owned(), resource)))
        }
    }
}

fn validate(input: &Value) -> Result<Value, Value> {
    let compose: Compose =
        serde_yaml::from_value(document(input)).map_err(|e| json!({ "refused": e.to_string() }))?;
    let before = compose.clone();
    let mut out = json!({});
    let results = [
        ("network", compose.validate_networks()),
        ("volume", compose.validate_volumes()),
        ("config", compose.validate_configs()),
        ("secret", compose.validate_secrets()),
    ];
    for (kind, result) in &results {
        let (named, finding) = view(result);
        if finding.is_some() {
            agree("kind", &[named.as_str(), kind])?;
        }
        out[format!("{kind}s")] = finding.map_or_else(|| json!([]), |(s, r)| json!([[s, r]]));
    }
    let all = compose.validate_all();
    let first = results.into_iter().map(|(_, r)| r).find(Result::is_err).unwrap_or(Ok(()));
    agree("all is the first", &[&all, &first])?;
    let (kind, finding) = view(&all);
    out["all"] = finding.map_or_else(|| json!([]), |(s, r)| json!([[kind, s, r]]));
    agree("untouched", &[before, compose])?;
    Ok(out)
}
