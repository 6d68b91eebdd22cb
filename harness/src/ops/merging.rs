//! Merge keys, and all the ways in.

use std::io::{self, Read};

use compose_spec::{Compose, Options};
use serde_json::{json, Value};
use serde_yaml::Value as Yaml;

use crate::{
    ops::document::{build, view},
    util::{agree, merge, rejected},
};

pub fn run(op: &str, input: &Value) -> Value {
    merge(match op {
        "merge.read" => read(input["merge"] == json!(true), build(&input["tree"])),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

/// A stream which comes a few bytes at a time.
struct Trickle<'a>(&'a [u8], usize);

impl Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.1.min(self.0.len()).min(buf.len());
        let (now, later) = self.0.split_at(n);
        buf[..n].copy_from_slice(now);
        self.0 = later;
        Ok(n)
    }
}

/// A tree as flow style text, each mapping or list which has appeared before as an alias.
fn aliased(value: &Yaml, seen: &mut Vec<Yaml>, out: &mut String) {
    let anchor = |seen: &mut Vec<Yaml>, out: &mut String| {
        if let Some(i) = seen.iter().position(|other| other == value) {
            out.push_str(&format!("*a{i} "));
            return true;
        }
        out.push_str(&format!("&a{} ", seen.len()));
        seen.push(value.clone());
        false
    };
    match value {
        Yaml::Mapping(map) if !map.is_empty() => {
            if anchor(seen, out) {
                return;
            }
            out.push('{');
            for (key, value) in map {
                out.push_str(&serde_json::to_string(key).unwrap_or_default());
                out.push_str(": ");
                aliased(value, seen, out);
                out.push_str(", ");
            }
            out.push('}');
        }
        Yaml::Sequence(items) if !items.is_empty() => {
            if anchor(seen, out) {
                return;
            }
            out.push('[');
            for value in items {
                aliased(value, seen, out);
                out.push_str(", ");
            }
            out.push(']');
        }
        Yaml::String(s) => out.push_str(&serde_json::to_string(s).unwrap_or_default()),
        scalar => out.push_str(serde_yaml::to_string(scalar).unwrap_or_default().trim_end()),
    }
}

fn ways(options: &Options, text: &str) -> Result<Option<Compose>, Value> {
    let read = [
        options.from_yaml_str(text).ok(),
        options.from_yaml_slice(text.as_bytes()).ok(),
        options.from_yaml_reader(text.as_bytes()).ok(),
        options.from_yaml_reader(Trickle(text.as_bytes(), 3)).ok(),
    ];
    agree("text, slice and stream", &read)?;
    let [first, ..] = read;
    Ok(first)
}

fn read(merge: bool, doc: Yaml) -> Result<Value, Value> {
    let mut options = Compose::options();
    agree("no options", &[&options, &Options::default(), Options::default().apply_merge(true).apply_merge(false)])?;
    options.apply_merge(merge);
    agree("options", &[&options, Options::default().apply_merge(!merge).apply_merge(merge)])?;

    let tree = options.from_yaml_value(doc.clone()).ok();
    let block = serde_yaml::to_string(&doc).map_err(|e| json!({ "cannot-write": e.to_string() }))?;
    let mut flow = String::new();
    aliased(&doc, &mut Vec::new(), &mut flow);
    agree("flow style", &[Some(&doc), serde_yaml::from_str(&flow).ok().as_ref()])?;
    for text in [&block, &flow] {
        let read = ways(&options, text)?;
        // Without merging, text may be read more leniently (see `document::read`).
        if merge || tree.is_some() {
            agree("tree and text", &[&tree, &read])?;
        }
        if !merge {
            agree("without options", &[&read, &serde_yaml::from_str(text).ok()])?;
        }
    }
    if !merge {
        agree("tree without options", &[&tree, &serde_yaml::from_value(doc).ok()])?;
    }
    let Some(compose) = tree else {
        return Ok(rejected());
    };
    let written = serde_yaml::to_value(&compose).map_err(|e| json!({ "cannot-write": e.to_string() }))?;
    Ok(json!({ "ok": true, "tree": view("", &written) }))
}
