//! Operations on the real crate, each returning an observation in the specification's vocabulary.

mod compose;
mod document;
mod forms;
mod image;
mod keys;
mod keywords;
mod leaves;
mod lists;
mod made;
mod merging;
mod order;
mod ports;
mod refs;
mod scalars;
mod total;
mod values;
mod volumes;

use serde_json::{json, Value};

pub fn run(op: &str, input: &Value) -> Value {
    let area = op.split('.').next().unwrap_or_default();
    match area {
        "image" => image::run(op, input),
        "key" => keys::run(op, input),
        "range" | "ranges" | "expose" | "port" => ports::run(op, input),
        "duration" | "bytes" | "limit" | "cpus" => scalars::run(op, input),
        "id" | "user" | "perms" | "device" | "cgroup" | "platform" | "netmode" | "ipc" | "link" | "volumesfrom" | "mac" | "ssh"
        | "buildnet" | "cache" | "context" => refs::run(op, input),
        "abspath" | "hostpath" | "source" | "volume" | "path" => volumes::run(op, input),
        "compose" => compose::run(op, input),
        "value" => values::run(op, input),
        "leaf" => leaves::run(op, input),
        "lm" => lists::run(op, input),
        "kw" => keywords::run(op, input),
        "empty" | "forms" => forms::run(op, input),
        "made" => made::run(op, input),
        "merge" => merging::run(op, input),
        "order" => order::run(op, input),
        "doc" => document::run(op, input),
        "total" => total::run(op, input),
        _ => json!({ "unknown-op": op }),
    }
}
