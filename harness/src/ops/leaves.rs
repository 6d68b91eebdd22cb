//! Any scalar in a place that takes one of the scalar types, handed over in every way a format may do it.

use std::fmt::Debug;

use compose_spec::{
    service::{
        blkio_config::Weight,
        build::{Cache, Context, Network as BuildNetwork, SshAuth},
        deploy::resources::{Count, Cpus},
        device::CgroupRule,
        network_config::NetworkMode,
        ports::{Range, ShortPort},
        user::IdOrName,
        volumes::{AbsolutePath, HostPath, ShortVolume},
        ByteValue, CpuSet, Device, Expose, Hostname, Image, Ipc, Limit, Link, MacAddress, OomScoreAdj, Percent, Platform, User,
        VolumesFrom,
    },
    Identifier, Name, Service, StringOrNumber, Value as Scalar,
};
use serde::{
    de::{
        value::{
            BorrowedStrDeserializer, BoolDeserializer, Error as Plain, F64Deserializer, I16Deserializer, I32Deserializer, I64Deserializer,
            I8Deserializer, StrDeserializer, StringDeserializer, U16Deserializer, U32Deserializer, U64Deserializer, U8Deserializer,
        },
        DeserializeOwned, IntoDeserializer,
    },
    Serialize,
};
use serde_json::{json, Value};
use serde_yaml::Value as Yaml;

use crate::{
    ops::document,
    util::{merge, rejected, same, text, to_yaml},
};

pub fn run(op: &str, input: &Value) -> Value {
    if op != "leaf.read" {
        return json!({ "unknown-op": op });
    }
    let node = document::build(&input["node"]);
    merge(match text(input, "leaf") {
        "name" => read::<Name>(node),
        "identifier" => read::<Identifier>(node),
        "hostname" => read::<Hostname>(node),
        "mac" => read::<MacAddress>(node),
        "image" => read::<Image>(node),
        "platform" => read::<Platform>(node),
        "abspath" => read::<AbsolutePath>(node),
        "hostpath" => read::<HostPath>(node),
        "link" => read::<Link>(node),
        "volumesfrom" => read::<VolumesFrom>(node),
        "device" => read::<Device>(node),
        "cgrouprule" => read::<CgroupRule>(node),
        "netmode" => read::<NetworkMode>(node),
        "ipc" => read::<Ipc>(node),
        "ssh" => read::<SshAuth>(node),
        "cache" => read::<Cache>(node),
        "context" => read::<Context>(node),
        "buildnet" => read::<BuildNetwork>(node),
        "cpuset" => read::<CpuSet>(node),
        "volume" => read::<ShortVolume>(node),
        "user" => read::<User>(node),
        "id" => read::<IdOrName>(node),
        "bytes" => read::<ByteValue>(node),
        "limit.u32" => read::<Limit<u32>>(node),
        "limit.u64" => read::<Limit<u64>>(node),
        "limit.bytes" => read::<Limit<ByteValue>>(node),
        "range" => read::<Range>(node),
        "expose" => read::<Expose>(node),
        "port" => read::<ShortPort>(node),
        "value" => read::<Scalar>(node),
        "strnum" => read::<StringOrNumber>(node),
        "count" => read::<Count>(node),
        "cpus" => read::<Cpus>(node),
        "weight" => read::<Weight>(node),
        "percent" => read::<Percent>(node),
        "oom" => read::<OomScoreAdj>(node),
        "duration" => setting("stop_grace_period", node),
        "micros" => setting("cpu_period", node),
        leaf => Ok(json!({ "unknown-leaf": leaf })),
    })
}

/// The same scalar as other formats would hand it over.
fn handed<T: DeserializeOwned>(node: &Yaml) -> Vec<Option<T>> {
    fn as_int<T: DeserializeOwned>(n: i128) -> Vec<Option<T>> {
        let mut made = Vec::new();
        macro_rules! via {
            ($($int:ty => $De:ident),*) => {
                $(if let Ok(int) = <$int>::try_from(n) {
                    let with: $De<Plain> = int.into_deserializer();
                    made.push(T::deserialize(with).ok());
                })*
            };
        }
        via!(i8 => I8Deserializer, i16 => I16Deserializer, i32 => I32Deserializer, i64 => I64Deserializer);
        if n >= 0 {
            // Signed types for what is not negative: not every type takes them.
            made.retain(Option::is_some);
        }
        via!(u8 => U8Deserializer, u16 => U16Deserializer, u32 => U32Deserializer, u64 => U64Deserializer);
        made
    }
    match node {
        Yaml::String(s) => vec![
            T::deserialize(StrDeserializer::<Plain>::new(s)).ok(),
            T::deserialize(BorrowedStrDeserializer::<Plain>::new(s)).ok(),
            T::deserialize(StringDeserializer::<Plain>::new(s.clone())).ok(),
            serde_json::from_value(json!(s)).ok(),
            serde_json::from_str(&json!(s).to_string()).ok(),
        ],
        Yaml::Number(n) if n.is_f64() => {
            let n = n.as_f64().unwrap_or_default();
            let mut made = vec![T::deserialize(F64Deserializer::<Plain>::new(n)).ok()];
            if n.is_finite() {
                made.push(serde_json::from_value(json!(n)).ok());
            }
            made
        }
        Yaml::Number(n) => as_int(n.as_u64().map_or_else(|| n.as_i64().unwrap_or_default().into(), i128::from)),
        Yaml::Bool(b) => vec![T::deserialize(BoolDeserializer::<Plain>::new(*b)).ok(), serde_json::from_value(json!(b)).ok()],
        Yaml::Null => vec![serde_json::from_value(Value::Null).ok()],
        _ => Vec::new(),
    }
}

fn read<T: Serialize + DeserializeOwned + PartialEq + Debug>(node: Yaml) -> Result<Value, Value> {
    let mut made: Vec<Option<T>> = vec![
        serde_yaml::from_value(node.clone()).ok(),
        serde_yaml::from_value::<Vec<T>>(Yaml::Sequence(vec![node.clone()])).ok().and_then(|mut list| list.pop()),
    ];
    made.append(&mut handed(&node));
    // Text is only more lenient where a plain scalar is handed out as whatever is asked for.
    if made[0].is_some() {
        let text = serde_yaml::to_string(&node).map_err(|e| json!({ "no-text": e.to_string() }))?;
        made.push(serde_yaml::from_str(&text).ok());
    }
    let Some(value) = same("readings", made)? else { return Ok(rejected()) };
    let tree = to_yaml(&value);
    if serde_yaml::from_value::<T>(tree.clone()).ok().as_ref() != Some(&value) {
        return Err(json!({ "reads back otherwise": document::view("", &tree) }));
    }
    Ok(json!({ "ok": true, "tree": document::view("", &tree) }))
}

fn setting(key: &str, node: Yaml) -> Result<Value, Value> {
    let map: Yaml = serde_yaml::Mapping::from_iter([(Yaml::from(key), node)]).into();
    let Ok(service) = serde_yaml::from_value::<Service>(map.clone()) else { return Ok(rejected()) };
    let text = serde_yaml::to_string(&map).map_err(|e| json!({ "no-text": e.to_string() }))?;
    same("tree and text", vec![Some(&service), serde_yaml::from_str::<Service>(&text).ok().as_ref()])?;
    let tree = to_yaml(&service);
    if serde_yaml::from_value::<Service>(tree.clone()).ok().as_ref() != Some(&service) {
        return Err(json!({ "reads back otherwise": document::view("", &tree) }));
    }
    Ok(json!({ "ok": true, "tree": document::view("", tree.get(key).unwrap_or(&Yaml::Null)) }))
}
