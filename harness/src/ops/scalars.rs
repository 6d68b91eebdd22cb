use std::{collections::BTreeSet, str::FromStr, time::Duration};

use compose_spec::{
    duration,
    service::{ByteValue, CpuSet, Limit},
    Service,
};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, merge, opt, rejected, same, text, to_yaml};

pub fn run(op: &str, input: &Value) -> Value {
    let s = text(input, "s");
    merge(match op {
        "duration.parse" => parse_duration(s),
        "duration.of" => duration_of(input),
        "bytes.parse" => bytes(s),
        "limit.u32" => limit::<u32>(s),
        "limit.u64" => limit::<u64>(s),
        "limit.bytes" => limit::<ByteValue>(s),
        "cpus.parse" => cpus(s),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

/// A service with one setting.
fn service_with(key: &str, value: serde_yaml::Value) -> Option<Service> {
    serde_yaml::from_value(serde_yaml::Value::Mapping([(key.into(), value)].into_iter().collect())).ok()
}

fn in_healthcheck(key: &str, value: serde_yaml::Value) -> Option<Duration> {
    let check = serde_yaml::Value::Mapping(
        [("test".into(), "true".into()), (key.into(), value)].into_iter().collect(),
    );
    let service = service_with("healthcheck", check)?;
    match service.healthcheck? {
        compose_spec::service::Healthcheck::Command(command) => match key {
            "interval" => command.interval,
            "timeout" => command.timeout,
            "start_period" => command.start_period,
            "start_interval" => command.start_interval,
            _ => None,
        },
        compose_spec::service::Healthcheck::Disable => None,
    }
}

fn view_duration(value: Duration) -> Value {
    json!({ "ok": true, "text": duration::to_string(value), "us": value.as_micros().to_string() })
}

fn parse_duration(s: &str) -> Result<Value, Value> {
    let field = |key: &str| in_healthcheck(key, s.into());
    let made = same(
        "readings",
        vec![
            duration::parse(s).ok(),
            service_with("stop_grace_period", s.into()).and_then(|service| service.stop_grace_period),
            field("interval"),
            field("timeout"),
            field("start_period"),
            field("start_interval"),
        ],
    )?;
    let Some(value) = made else { return Ok(rejected()) };
    let printed = duration::to_string(value);
    agree("read back", &[Some(value), duration::parse(&printed).ok()])?;
    let service = Service { stop_grace_period: Some(value), ..Service::default() };
    agree("written", &[to_yaml(&service).get("stop_grace_period").cloned(), Some(serde_yaml::Value::from(printed))])?;
    Ok(view_duration(value))
}

fn duration_of(input: &Value) -> Result<Value, Value> {
    let secs = text(input, "secs").parse().map_err(|_| json!("bad-input"))?;
    let nanos = input["nanos"].as_u64().and_then(|n| u32::try_from(n).ok()).ok_or_else(|| json!("bad-input"))?;
    let value = Duration::new(secs, nanos);
    let whole = Duration::new(secs, nanos / 1000 * 1000);
    agree("read back", &[Some(whole), duration::parse(&duration::to_string(value)).ok()])?;
    Ok(view_duration(value))
}

fn bytes(s: &str) -> Result<Value, Value> {
    let made = same(
        "readings",
        vec![s.parse::<ByteValue>().ok(), from_yaml_string(s).ok(), service_with("mem_limit", s.into()).and_then(|service| service.mem_limit)],
    )?;
    let Some(value) = made else { return Ok(rejected()) };
    let (ByteValue::Bytes(n) | ByteValue::Kilobytes(n) | ByteValue::Megabytes(n) | ByteValue::Gigabytes(n)) = value;
    agree("read back", &[Some(value), value.to_string().parse().ok(), serde_yaml::from_value(to_yaml(&value)).ok()])?;
    agree("written", &[to_yaml(&value), serde_yaml::Value::from(value.to_string())])?;
    Ok(json!({ "ok": true, "text": value.to_string(), "n": n.to_string(), "unit": value.unit(), "bytes": opt(value.into_bytes()) }))
}

fn limit<T>(s: &str) -> Result<Value, Value>
where
    T: FromStr + PartialEq + std::fmt::Debug + std::fmt::Display + Copy + serde::Serialize + serde::de::DeserializeOwned,
{
    let Ok(value) = s.parse::<Limit<T>>() else { return Ok(rejected()) };
    agree("read back", &[Some(value), value.to_string().parse().ok(), serde_yaml::from_value(to_yaml(&value)).ok()])?;
    let unlimited = matches!(value, Limit::Unlimited);
    if let Limit::Value(inner) = value {
        agree("written", &[to_yaml(&value), to_yaml(&inner)])?;
    } else {
        agree("written", &[to_yaml(&value), serde_yaml::Value::from(-1)])?;
    }
    Ok(json!({ "ok": true, "text": value.to_string(), "unlimited": unlimited }))
}

fn cpus(s: &str) -> Result<Value, Value> {
    let made = same(
        "readings",
        vec![
            s.parse::<CpuSet>().ok(),
            CpuSet::try_from(s).ok(),
            from_yaml_string(s).ok(),
            service_with("cpuset", s.into()).map(|service| service.cpuset),
        ],
    )?;
    let Some(set) = made else { return Ok(rejected()) };
    let cpus: BTreeSet<u64> = set.clone().into();
    agree("made from its CPUs", &[set.clone(), CpuSet::from(cpus.clone()), CpuSet(cpus.clone())])?;
    agree("empty", &[set.is_empty(), cpus.is_empty()])?;
    agree("read back", &[Some(set.clone()), set.to_string().parse().ok(), serde_yaml::from_value(to_yaml(&set)).ok()])?;
    agree("written", &[to_yaml(&set), serde_yaml::Value::from(set.to_string())])?;
    let mut runs: Vec<(u64, u64)> = Vec::new();
    for cpu in cpus {
        match runs.last_mut() {
            Some((_, end)) if end.checked_add(1) == Some(cpu) => *end = cpu,
            _ => runs.push((cpu, cpu)),
        }
    }
    let runs: Vec<Value> = runs.iter().map(|(a, b)| json!([a.to_string(), b.to_string()])).collect();
    Ok(json!({ "ok": true, "text": set.to_string(), "cpus": runs }))
}
