use compose_spec::{
    service::{
        Expose,
        ports::{self, Mode, Port, Protocol, Range, ShortPort, ShortRanges},
    },
    ShortOrLong,
};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, hash64, merge, opt, rejected, same, text, to_yaml, yaml_view};

fn number(value: &Value) -> Option<u16> {
    value.as_u64().and_then(|n| n.try_into().ok())
}

fn optional(value: &Value) -> Option<u16> {
    number(&value[0])
}

pub fn run(op: &str, input: &Value) -> Value {
    let s = text(input, "s");
    merge(match op {
        "range.parse" => parse_range(s),
        "range.new" => new_range(input),
        "range.shift" => shift(input),
        "expose.parse" => expose(s),
        "ranges.parse" => ranges(s),
        "port.parse" => port(s),
        "port.int" => int(input),
        "port.expand" => expand(s),
        "port.shorten" => shorten(input),
        "port.edits" => Ok(edits(s, &input["es"])),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn view_range(range: Range) -> Result<Value, Value> {
    let yaml = to_yaml(&range);
    agree("copy", &[Some(range), serde_yaml::from_value(yaml.clone()).ok()])?;
    agree("single", &[range == range.start(), range.end().is_none()])?;
    let last = range.end().unwrap_or(range.start());
    agree("whole", &[range == (range.start()..=last), true])?;
    agree("remade", &[Ok(range), Range::new(range.start(), range.end()), (range.start(), range.end()).try_into()])?;
    agree("ordered", &[range.end().map_or(true, |end| end > range.start()), true])?;
    let (first, last, count) = (range.into_iter().next(), range.into_iter().last(), range.into_iter().count());
    Ok(json!({
        "ok": true, "text": range.to_string(), "yaml": yaml_view(&yaml), "start": range.start(),
        "end": range.end().map_or_else(|| json!([]), |e| json!([e])), "size": range.size(),
        "first": first, "last": last, "count": count,
    }))
}

fn parse_range(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<Range>().ok(), Range::try_from(s).ok(), from_yaml_string(s).ok()])?;
    made.map_or_else(|| Ok(rejected()), view_range)
}

fn new_range(input: &Value) -> Result<Value, Value> {
    let (Some(s), e) = (number(&input["s"]), optional(&input["e"])) else { return Err(json!("bad-input")) };
    let mut made = vec![Range::new(s, e).ok(), (s, e).try_into().ok()];
    match e {
        Some(e) => {
            made.push((s, e).try_into().ok());
            made.push((s..=e).try_into().ok());
        }
        None => made.push(Some(s.into())),
    }
    same("constructors", made)?.map_or_else(|| Ok(rejected()), view_range)
}

fn shift(input: &Value) -> Result<Value, Value> {
    let (Some(s), e) = (number(&input["s"]), optional(&input["e"])) else { return Err(json!("bad-input")) };
    let k = input["k"].as_i64().unwrap_or_default();
    let Ok(range) = Range::new(s, e) else { return Ok(rejected()) };
    let by = k.unsigned_abs() as u16;
    // Like that of integers, the arithmetic panics on overflow.
    let shifted = attempt(|| if k < 0 { range - by } else { range + by });
    let assigned = attempt(|| {
        let mut range = range;
        if k < 0 {
            range -= by;
        } else {
            range += by;
        }
        range
    });
    same("assigned", vec![shifted, assigned])?.map_or_else(|| Ok(rejected()), view_range)
}

fn attempt<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    std::panic::catch_unwind(f).ok()
}

fn expose(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<Expose>().ok(), Expose::try_from(s).ok(), from_yaml_string(s).ok()])?;
    let Some(expose) = made else { return Ok(rejected()) };
    view_expose(&expose)
}

fn view_expose(expose: &Expose) -> Result<Value, Value> {
    let yaml = to_yaml(expose);
    agree("read back", &[Some(expose.clone()), serde_yaml::from_value(yaml.clone()).ok(), expose.to_string().parse().ok()])?;
    if expose.protocol.is_none() {
        agree("from range", &[expose.clone(), expose.range.into()])?;
    }
    protocol(expose.protocol.as_ref())?;
    Ok(json!({ "ok": true, "text": expose.to_string(), "yaml": yaml_view(&yaml), "range": expose.range.to_string(),
        "protocol": opt(expose.protocol.as_ref()) }))
}

fn protocol(protocol: Option<&Protocol>) -> Result<(), Value> {
    if let Some(protocol) = protocol {
        agree("protocol", &[protocol.as_str().to_owned(), protocol.to_string(), String::from(protocol.clone())])?;
        agree("tcp", &[protocol.is_tcp(), *protocol == Protocol::Tcp, protocol.as_str() == "tcp"])?;
        agree("udp", &[protocol.is_udp(), *protocol == Protocol::Udp, protocol.as_str() == "udp"])?;
    }
    Ok(())
}

fn view_ranges(ranges: ShortRanges) -> Result<Value, Value> {
    let yaml = to_yaml(&ranges);
    agree("read back", &[Some(ranges), serde_yaml::from_value(yaml.clone()).ok(), ranges.to_string().parse().ok()])?;
    agree("remade", &[Ok(ranges), ShortRanges::new(ranges.host(), ranges.container())])?;
    if ranges.host().is_none() {
        agree("from container", &[ranges, ranges.container().into()])?;
    }
    Ok(json!({ "ok": true, "text": ranges.to_string(), "yaml": yaml_view(&yaml), "host": opt(ranges.host()),
        "container": ranges.container().to_string() }))
}

fn ranges(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<ShortRanges>().ok(), ShortRanges::try_from(s).ok(), from_yaml_string(s).ok()])?;
    made.map_or_else(|| Ok(rejected()), view_ranges)
}

fn view_port(port: &ShortPort) -> Result<Value, Value> {
    let yaml = to_yaml(port);
    agree("read back", &[Some(port.clone()), serde_yaml::from_value(yaml.clone()).ok(), port.to_string().parse().ok()])?;
    protocol(port.protocol.as_ref())?;
    Ok(json!({ "ok": true, "text": port.to_string(), "yaml": yaml_view(&yaml), "host_ip": opt(port.host_ip),
        "host": opt(port.ranges.host()), "container": port.ranges.container().to_string(), "protocol": opt(port.protocol.as_ref()) }))
}

/// Through the field of a service, where the short form competes with the long one.
fn from_field(value: serde_yaml::Value) -> Option<ShortPort> {
    match serde_yaml::from_value::<ports::Ports>(serde_yaml::Value::Sequence(vec![value])).ok()?.into_iter().next()? {
        ShortOrLong::Short(port) => Some(port),
        ShortOrLong::Long(_) => None,
    }
}

fn parse_port(s: &str) -> Result<Option<ShortPort>, Value> {
    same("constructors", vec![s.parse::<ShortPort>().ok(), ShortPort::try_from(s).ok(), from_yaml_string(s).ok(), from_field(s.into())])
}

fn port(s: &str) -> Result<Value, Value> {
    parse_port(s)?.map_or_else(|| Ok(rejected()), |port| view_port(&port))
}

/// A port given as a YAML integer.
fn int(input: &Value) -> Result<Value, Value> {
    let n = input["n"].as_i64().unwrap_or_default();
    let yaml = serde_yaml::Value::from(n);
    match text(input, "k") {
        "range" => serde_yaml::from_value(yaml).map_or_else(|_| Ok(rejected()), view_range),
        "ranges" => serde_yaml::from_value(yaml).map_or_else(|_| Ok(rejected()), view_ranges),
        "expose" => serde_yaml::from_value(yaml).map_or_else(|_| Ok(rejected()), |expose| view_expose(&expose)),
        "port" => {
            let made = same("constructors", vec![serde_yaml::from_value(yaml.clone()).ok(), from_field(yaml)])?;
            let Some(port) = made else { return Ok(rejected()) };
            agree("from integer", &[port.clone(), u16::try_from(n).unwrap_or_default().into()])?;
            view_port(&port)
        }
        _ => Err(json!("bad-input")),
    }
}

fn long_entry(port: &Port) -> Value {
    if port.name.is_some() || port.app_protocol.is_some() || port.mode.is_some() || !port.extensions.is_empty() {
        return json!({ "unexpected": format!("{port:?}") });
    }
    json!({ "target": port.target, "published": port.published.map_or_else(|| json!([]), |r| match r.end() {
            None => json!([r.start()]),
            Some(_) => json!([r.to_string()]),
        }), "host_ip": opt(port.host_ip), "protocol": opt(port.protocol.as_ref()) })
}

fn expand(s: &str) -> Result<Value, Value> {
    let Some(port) = parse_port(s)? else { return Ok(rejected()) };
    let long: Vec<Port> = port.clone().into_long_iter().collect();
    let ports: ports::Ports = [ShortOrLong::Short(port.clone())].into_iter().collect();
    agree("through the field", &[long.clone(), ports::into_long_iter(ports).collect()])?;
    let pairs: Vec<(Option<u16>, u16)> = port.ranges.into_iter().collect();
    agree("pairs", &[
        pairs,
        long.iter().map(|p| (p.published.map(|r| r.start()), p.target)).collect(),
    ])?;
    // Consecutive entries differ by one on both sides.
    for pair in long.windows(2) {
        agree("step", &[pair[1].target, pair[0].target + 1])?;
        agree("host step", &[pair[1].published.map(|r| r.start()), pair[0].published.map(|r| r.start() + 1)])?;
        agree("host", &[pair[1].published.and_then(|r| r.end()), None])?;
        agree("same", &[(pair[0].host_ip, &pair[0].protocol), (pair[1].host_ip, &pair[1].protocol)])?;
    }
    for port in &long {
        let short = port.clone().into_short().map_err(|_| json!({ "disagreement": "expanded port cannot be shortened" }))?;
        agree("there and back", &[short.into_long_iter().collect::<Vec<_>>(), vec![port.clone()]])?;
    }
    let entry = |i: usize| long.get(i).map(long_entry);
    Ok(json!({ "ok": true, "text": port.to_string(), "count": long.len(), "first": entry(0),
        "second": entry(1).map_or_else(|| json!([]), |e| json!([e])), "last": entry(long.len() - 1) }))
}

fn shorten(input: &Value) -> Result<Value, Value> {
    let get = |key: &str| input[key][0].as_str();
    let bad = || json!({ "bad-input": input });
    let long = Port {
        name: get("name").map(str::to_owned),
        published: get("published").map(str::parse).transpose().map_err(|_| bad())?,
        host_ip: get("host_ip").map(str::parse).transpose().map_err(|_| bad())?,
        protocol: get("protocol").map(Protocol::from),
        app_protocol: get("app_protocol").map(str::to_owned),
        mode: match get("mode") {
            None => None,
            Some("host") => Some(Mode::Host),
            Some("ingress") => Some(Mode::Ingress),
            _ => return Err(bad()),
        },
        extensions: get("ext")
            .map(|k| Ok((k.parse().map_err(|_| bad())?, serde_yaml::Value::Null)))
            .into_iter()
            .collect::<Result<_, Value>>()?,
        ..Port::new(number(&input["target"]).ok_or_else(bad)?)
    };
    let yaml = to_yaml(&long);
    agree("read back", &[Some(long.clone()), serde_yaml::from_value(yaml).ok()])?;
    agree("hash", &[hash64(&long), hash64(&long.clone())])?;
    match long.clone().into_short() {
        Ok(short) => {
            agree("there and back", &[short.clone().into_long_iter().collect::<Vec<_>>(), vec![long]])?;
            Ok(json!({ "ok": true, "text": short.to_string() }))
        }
        Err(same) => {
            agree("given back", &[same, long])?;
            Ok(rejected())
        }
    }
}

fn edits(s: &str, edits: &Value) -> Value {
    let Ok(mut ranges) = s.parse::<ShortRanges>() else { return json!({ "views": [] }) };
    let mut views = Vec::new();
    for edit in edits.as_array().into_iter().flatten() {
        let v = text(edit, "v");
        let before = ranges;
        let done = match text(edit, "e") {
            "take" => ranges.take_host() == before.host(),
            kind => {
                let Ok(range) = v.parse::<Range>() else { return json!({ "bad-edit": edit }) };
                match kind {
                    "host" => ranges.replace_host(range).map(|old| old == before.host()).unwrap_or(false),
                    "container" => ranges.replace_container(range).map(|old| old == before.container()).unwrap_or(false),
                    _ => return json!({ "bad-edit": edit }),
                }
            }
        };
        views.push(json!({ "done": done, "after": merge(view_ranges(ranges)) }));
    }
    json!({ "views": views })
}
