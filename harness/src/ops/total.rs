//! Everything there is to do with anything that can be read, to see that each of it ends.

use std::fmt::{Debug, Display};

use compose_spec::{
    service::{
        self, build::{Cache, CacheOption, CacheType, Context, SshAuth},
        deploy::resources::Cpus, device::{CgroupRule, Permissions}, 
        image::{Digest, Name as ImageName, Tag, TagOrDigest},
        network_config::NetworkMode,
        ports::{Protocol, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName},
        volumes::{AbsolutePath, HostPath, Mount, ShortVolume, Source},
        ByteValue, CpuSet, Device, Expose, Hostname, Image, Ipc, Limit, Link, MacAddress, NetworkConfig, Platform,
        User, VolumesFrom,
    },
    AsShort, AsShortIter, Compose, ExtensionKey, Identifier, ItemOrList, ListOrMap, MapKey, Name, Number, Options, Resource, Service,
    ShortOrLong, StringOrNumber, Value as Scalar,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use serde_yaml::{value::{Tag as YamlTag, TaggedValue}, Mapping, Value as Yaml};

use crate::{ops::document, util::{hash64, text}};

pub fn run(op: &str, input: &Value) -> Value {
    match op {
        "total.text" => fields(text(input, "s")),
        "total.yaml" => documents(&bytes(text(input, "s"))),
        "total.of" => {
            // What the operation of one language finds out does not matter here.
            let _ = crate::ops::run(text(input, "op"), input);
        }
        "total.tree" => trees(build(&input["tree"])),
        "total.cpus" => {
            let _ = text(input, "s").parse::<CpuSet>();
        }
        _ => return json!({ "unknown-op": op }),
    }
    json!({ "answers": true })
}

/// A tree which may also have tags (kind `g`) and keys which are not text (kind `n`, key and value in turn).
fn build(node: &Value) -> Yaml {
    let children = || node["c"].as_array().into_iter().flatten();
    match text(node, "t") {
        "g" => Yaml::Tagged(Box::new(TaggedValue {
            tag: YamlTag::new(text(node, "v")),
            value: children().next().map_or(Yaml::Null, build),
        })),
        "n" => {
            let items: Vec<Yaml> = children().map(build).collect();
            items.chunks_exact(2).map(|kv| (kv[0].clone(), kv[1].clone())).collect::<Mapping>().into()
        }
        "l" => Yaml::Sequence(children().map(build).collect()),
        "m" => children().map(|c| (Yaml::from(text(c, "k")), build(c))).collect::<Mapping>().into(),
        _ => document::build(node),
    }
}

/// Text in which U+E000 to U+E0FF stand for single bytes.
fn bytes(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    for c in s.chars() {
        match u32::from(c) {
            byte @ 0xE000..=0xE0FF => out.push((byte - 0xE000) as u8),
            _ => out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

fn looked_at<T: Debug + Clone + PartialEq>(value: &T) {
    let _ = (format!("{value:?}{value:#?}"), value.clone() == *value);
}

fn stored<T: Serialize + DeserializeOwned + Debug + Clone + PartialEq>(value: &T) {
    looked_at(value);
    let _ = serde_yaml::to_string(value).map(|text| serde_yaml::from_str::<T>(&text).map(|again| again == *value));
    let _ = serde_yaml::to_value(value).map(|tree| serde_yaml::from_value::<T>(tree).map(|again| again == *value));
    let _ = serde_json::to_string_pretty(value).map(|text| serde_json::from_str::<T>(&text).map(|again| again == *value));
}

fn shown<T: Display>(value: &T) {
    let _ = format!("{value}{value:>7}{value:#}");
}

/// A text as a value of one type, by every road, and what can be done with it.
fn field<T>(s: &str, parse: impl Fn(&str) -> Option<T>, with: impl Fn(T))
where
    T: Serialize + DeserializeOwned + Debug + Clone + PartialEq,
{
    let read = [
        parse(s),
        serde_yaml::from_value(Yaml::from(s)).ok(),
        serde_yaml::from_str(s).ok(),
        serde_json::from_value(json!(s)).ok(),
        s.parse::<f64>().ok().and_then(|n| serde_yaml::from_value(Yaml::from(n)).ok()),
        s.parse::<u64>().ok().and_then(|n| serde_yaml::from_value(Yaml::from(n)).ok()),
        s.parse::<i64>().ok().and_then(|n| serde_json::from_value(json!(n)).ok()),
    ];
    for value in read.into_iter().flatten() {
        stored(&value);
        with(value);
    }
}

fn image(mut image: Image) {
    shown(&image);
    let _ = (image.registry().map(str::len), image.name().len(), image.tag().map(str::len), image.digest().map(str::len));
    let other = image.clone();
    let (name, rest) = other.as_parts();
    let _ = Image::from_parts(name.clone(), rest.clone());
    if let Some(registry) = name.registry().and_then(|r| ImageName::new(r).ok()) {
        image.set_registry(Some(registry));
    }
    image.set_registry(None);
    image.set_tag_or_digest(rest);
    image.set_tag(Tag::new("t").ok());
    image.set_name(name);
    image.set_digest(Digest::new("sha256:0ed5d5928d4737458944eb604cc8509e245c3e19d02ad83935398bc4b991aac7").ok());
    image.set_digest(None);
    let _ = (image.as_tag().is_some(), image.as_digest().is_some(), image.as_tag_or_digest().map(|t| t.separator()));
    let _ = (image.cmp(&other), hash64(&image));
    looked_at(&image);
}

fn range(range: Range) {
    shown(&range);
    let _ = (range.size(), range.end(), hash64(&range), range == range, range.into_iter().count());
    let _ = range.into_iter().rev().next();
}

fn short_port(port: ShortPort) {
    shown(&port);
    let mut ranges = port.ranges;
    let container = ranges.container();
    let _ = ranges.host().map(|host| ranges.replace_host(host));
    let _ = ranges.replace_container(container);
    let _ = ranges.take_host();
    short_ranges(ranges);
    short_ranges(port.ranges);
    for long in port.into_long_iter().take(300) {
        long_port(long);
    }
}

fn short_ranges(ranges: ShortRanges) {
    shown(&ranges);
    range(ranges.container());
    let _ = (ranges.into_iter().count(), hash64(&ranges));
}

fn long_port(port: service::ports::Port) {
    stored(&port);
    let _ = hash64(&port);
    if let Ok(short) = port.into_short() {
        shown(&short);
        looked_at(&short);
    }
}

fn short_volume(volume: ShortVolume) {
    shown(&volume);
    mount(volume.into_long());
}

fn mount(mount: Mount) {
    stored(&mount);
    let _ = (hash64(&mount), mount.kind(), mount.source_to_string(), mount.common().target.as_path().components().count());
    if let Ok(short) = mount.into_short() {
        shown(&short);
        looked_at(&short);
    }
}

fn list_or_map(list: ListOrMap) {
    stored(&list);
    let _ = (list.is_empty(), list.clone().into_map_split_on(&['=', ':']), list.clone().into_map_split_on(&[]));
    for item in list.clone().into_list() {
        let _ = item.len();
    }
    for (key, value) in list.into_map().into_iter().flatten() {
        shown(&key);
        value.into_iter().for_each(scalar);
    }
}

fn scalar(value: Scalar) {
    shown(&value);
    looked_at(&value);
    let _ = (u64::try_from(value.clone()), i64::try_from(value.clone()), f64::try_from(value.clone()), bool::try_from(value.clone()));
    if let Ok(n) = Number::try_from(value) {
        number(n);
    }
}

fn number(n: Number) {
    shown(&n);
    let _ = format!("{n:e}{n:E}{n:+.3e}");
    let _ = (u64::try_from(n), i64::try_from(n), f64::try_from(n), n == n);
}

fn fields(s: &str) {
    macro_rules! parsed {
        ($($Ty:ty => $with:expr;)+) => {
            $(field::<$Ty>(s, |s| s.parse().ok(), $with);)+
        };
    }
    parsed! {
        Image => image;
        Name => |v| shown(&v); Identifier => |v| shown(&v); MapKey => |v| shown(&v);
        ExtensionKey => |v| { shown(&v); let _ = v.strip_prefix().len(); };
        Hostname => |v| shown(&v); service::Resource => |v| shown(&v); UserName => |v| shown(&v); CacheOption => |v| shown(&v);
        Range => range; Expose => |v| { shown(&v); range(v.range); }; ShortPort => short_port;
        
        IdOrName => |v| { shown(&v); let _ = v.as_id(); }; User => |v| shown(&v);
        Device => |v| shown(&v); CgroupRule => |v| shown(&v);
        NetworkMode => |v| shown(&v); Ipc => |v| shown(&v); Link => |v| shown(&v); VolumesFrom => |v| shown(&v); MacAddress => |v| shown(&v);
        SshAuth => |v| { shown(&v); let _ = (v.id().map(str::len), v.path()); };
        service::build::Network => |v| { shown(&v); let _ = v.into_option(); };
        Cache => |v| { shown(&v); let _ = v.clone().into_options(); looked_at(&CacheType::from(v.cache_type)); };
        Platform => |v| shown(&v);
        AbsolutePath => |mut v| { let _ = v.pop(); v.push(s); v.push(".."); looked_at(&v); };
        HostPath => |mut v| { let _ = v.pop(); v.push(s); let _ = v.pop(); looked_at(&v); };
        ShortVolume => short_volume;
        ByteValue => |v| { shown(&v); let _ = (v.into_bytes(), v.unit()); };
    }
    if tractable(s) {
        parsed! { CpuSet => |v| { shown(&v); let _ = v.is_empty(); }; }
    }
    macro_rules! read {
        ($($Ty:ty => $with:expr;)+) => {
            $(field::<$Ty>(s, |_| None, $with);)+
        };
    }
    read! {
        Limit<u32> => |v| shown(&v); Limit<u64> => |v| shown(&v); Limit<ByteValue> => |v| shown(&v);
        Context => |v| { let _ = (v.is_git_repo_url(), v.branch_or_tag().map(str::len), v.subdirectory().map(str::len)); let _ = v.into_string(); };
        Cpus => |v| { let _ = v.into_inner(); };
        Scalar => scalar; StringOrNumber => |v| { shown(&v); let _ = Number::try_from(v); };
        ListOrMap => list_or_map; ItemOrList<Identifier> => |v| { let _ = v.into_list(); };
        service::Command => |v| looked_at(&v);
    }
    scalar(Scalar::parse(s));
    if let Ok(n) = s.parse::<Number>() {
        number(n);
    }
    if let Ok(duration) = compose_spec::duration::parse(s) {
        let _ = compose_spec::duration::parse(&compose_spec::duration::to_string(duration));
    }
    if let Ok(ranges) = s.parse::<ShortRanges>() {
        short_ranges(ranges);
    }
    if let Ok(permissions) = s.parse::<Permissions>() {
        shown(&permissions);
    }
    if let Ok(protocol) = Ok::<_, ()>(Protocol::from(s.to_owned())) {
        shown(&protocol);
    }
    if let Ok(source) = Source::parse(s) {
        shown(&source);
    }
    let tag = Tag::new(s).ok().map(TagOrDigest::from);
    let digest = Digest::new(s).ok().map(TagOrDigest::from);
    if let Ok(base) = Image::parse("quay.io/a/b:c") {
        let mut edited = base.clone();
        edited.set_tag_or_digest(tag);
        image(edited.clone());
        edited.set_tag_or_digest(digest);
        image(edited);
        if let Ok(name) = ImageName::new(s) {
            let mut edited = base;
            edited.set_name(name);
            image(edited);
        }
    }
}

/// Sets of processors are kept one by one (see the known findings of P29): not the huge ones.
fn tractable(s: &str) -> bool {
    s.split(['-', ',']).all(|n| n.len() < 7)
}

fn tame(value: &Yaml) -> bool {
    match value {
        Yaml::String(s) => tractable(s) || s.contains(|c: char| !c.is_ascii_digit() && !"+-,".contains(c)),
        Yaml::Sequence(items) => items.iter().all(tame),
        Yaml::Mapping(map) => map.iter().all(|(k, v)| k != "cpuset" || tame(v) && v.as_str().map_or(true, tractable)) && map.values().all(tame_inside),
        Yaml::Tagged(tagged) => tame(&tagged.value),
        _ => true,
    }
}

fn tame_inside(value: &Yaml) -> bool {
    !matches!(value, Yaml::Sequence(_) | Yaml::Mapping(_) | Yaml::Tagged(_)) || tame(value)
}

fn trees(tree: Yaml) {
    if !tame(&tree) {
        return;
    }
    if let Ok(text) = serde_yaml::to_string(&tree) {
        documents(text.as_bytes());
    }
    for merge in [false, true] {
        if let Ok(compose) = Options::default().apply_merge(merge).from_yaml_value(tree.clone()) {
            all_of(compose);
        }
    }
    if let Ok(compose) = serde_yaml::from_value(tree) {
        all_of(compose);
    }
}

fn documents(text: &[u8]) {
    for merge in [false, true] {
        let options = Options::default().apply_merge(merge).clone();
        if let Ok(compose) = options.from_yaml_slice(text) {
            all_of(compose);
        }
        let _ = options.from_yaml_reader(text);
        if let Ok(text) = std::str::from_utf8(text) {
            let _ = options.from_yaml_str(text);
        }
    }
}

fn all_of(compose: Compose) {
    stored(&compose);
    let _ = (compose.validate_all(), compose.validate_networks(), compose.validate_volumes(), compose.validate_configs(), compose.validate_secrets());
    for include in &compose.include {
        let _ = include.as_short();
        if let ShortOrLong::Long(include) = include {
            looked_at(&include.as_short());
        }
    }
    for include in compose.include {
        looked_at(&include.into_long());
    }
    for (name, network) in compose.networks {
        shown(&name);
        if let Some(Resource::Compose(network)) = network {
            let _ = (network.is_empty(), network.ipam.as_ref().map(|ipam| ipam.is_empty()));
        }
    }
    for volume in compose.volumes.into_values().flatten() {
        let _ = (volume.is_external(), volume.name().map(String::len), volume.as_compose().map(|volume| volume.is_empty()));
    }
    for (name, service) in compose.services {
        shown(&name);
        of(service);
    }
}

fn of(service: Service) {
    if let Some(build) = service.build {
        looked_at(&build.as_short());
        let build = build.into_long();
        let _ = (build.is_empty(), build.as_short().cloned());
        list_or_map(build.args);
        list_or_map(build.labels);
        for cache in build.cache_from.into_iter().chain(build.cache_to) {
            shown(&cache);
            let _ = cache.into_options();
        }
        build.tags.into_iter().for_each(image);
        if let Some(Context::Url(url)) = build.context {
            let _ = Context::from(url).into_string();
        }
    }
    looked_at(&service.depends_on.as_short_iter().map(|mut keys| keys.next().cloned()));
    looked_at(&service.depends_on.into_long());
    if let Some(NetworkConfig::Networks(networks)) = service.network_config {
        looked_at(&networks.as_short_iter().map(|keys| keys.count()));
        looked_at(&networks.into_long());
    }
    for item in service.configs.into_iter().chain(service.secrets) {
        let _ = item.as_short().cloned();
        looked_at(&item.into_long());
    }
    if let Some(env_file) = service.env_file {
        let _ = env_file.as_single().cloned();
        looked_at(&env_file.into_list());
    }
    service.image.into_iter().for_each(image);
    for list in [service.environment, service.annotations, service.labels, service.sysctls] {
        list_or_map(list);
    }
    for port in service.ports.clone() {
        match port {
            ShortOrLong::Short(port) => short_port(port),
            ShortOrLong::Long(port) => long_port(port),
        }
    }
    let _ = service::ports::into_long_iter(service.ports.clone()).take(3000).count();
    let _ = service::ports::into_short_iter(service.ports).count();
    for volume in service.volumes.clone() {
        match volume {
            ShortOrLong::Short(volume) => short_volume(volume),
            ShortOrLong::Long(volume) => mount(volume),
        }
    }
    let _ = (service::volumes::into_long_iter(service.volumes.clone()).count(), service::volumes::into_short_iter(service.volumes).count());
    for expose in service.expose {
        range(expose.range);
    }
    for (resource, ulimit) in service.ulimits {
        shown(&resource);
        let ulimit = ulimit.into_long();
        let _ = ulimit.as_short().cloned();
    }
    for duration in [service.cpu_period, service.cpu_quota, service.cpu_rt_period, service.stop_grace_period].into_iter().flatten() {
        let _ = compose_spec::duration::to_string(duration);
    }
    if let Some(deploy) = service.deploy {
        let _ = (deploy.is_empty(), deploy.placement.as_ref().map(|placement| placement.is_empty()));
        list_or_map(deploy.labels);
        looked_at(&deploy.resources);
    }
    for bytes in [service.mem_limit, service.mem_reservation, service.shm_size].into_iter().flatten() {
        let _ = bytes.into_bytes();
    }
}
