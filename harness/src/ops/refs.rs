use std::borrow::Cow;

use compose_spec::{
    service::{
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        network_config::{MacAddress, NetworkMode},
        platform::{self, Arch, Os, Platform},
        user::{IdOrName, Name, User},
        Image, Ipc, Link, VolumesFrom, VolumesFromSource,
    },
    Identifier,
};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, merge, opt, rejected, same, text, to_yaml};

pub fn run(op: &str, input: &Value) -> Value {
    let s = text(input, "s");
    merge(match op {
        "id.parse" => id(s),
        "user.parse" => user(s),
        "perms.parse" => perms(s),
        "device.parse" => device(s),
        "cgroup.parse" => cgroup(s),
        "platform.parse" => platform(s),
        "netmode.parse" => network_mode(s),
        "ipc.parse" => ipc(s),
        "link.parse" => link(s),
        "volumesfrom.parse" => volumes_from(s),
        "mac.parse" => mac(s),
        "ssh.parse" => ssh(s),
        "buildnet.parse" => build_network(s),
        "cache.parse" => cache(s),
        "context.path" => context(s),
        "context.url" => context_url(input),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

/// All the ways of making a `$Ty` from text.
macro_rules! from_text {
    ($Ty:ty, $s:expr) => {
        same(
            "constructors",
            vec![
                $s.parse::<$Ty>().ok(),
                <$Ty>::parse($s).ok(),
                <$Ty>::try_from($s).ok(),
                <$Ty>::try_from($s.to_owned()).ok(),
                <$Ty>::try_from(Box::<str>::from($s)).ok(),
                <$Ty>::try_from(Cow::Borrowed($s)).ok(),
                from_yaml_string::<$Ty>($s).ok(),
            ],
        )?
    };
}

/// Printing, writing and reading back agree.
macro_rules! prints {
    ($value:expr) => {{
        let text = $value.to_string();
        agree("read back", &[Some($value.clone()), text.parse().ok(), serde_yaml::from_value(to_yaml(&$value)).ok()])?;
        agree("written", &[to_yaml(&$value), serde_yaml::Value::from(text.clone())])?;
        text
    }};
}

fn view_id(id: &IdOrName) -> Result<Value, Value> {
    agree("is", &[id.is_id(), id.as_id().is_some(), !id.is_name(), id.as_name().is_none()])?;
    agree("text", &[id.to_string(), String::from(id.clone())])?;
    match (id.as_id(), id.as_name()) {
        (Some(n), None) => {
            agree("made from number", &[id.clone(), n.into()])?;
            agree("written", &[to_yaml(id), n.into()])?;
            Ok(json!({ "kind": "id", "value": n.to_string() }))
        }
        (None, Some(name)) => {
            agree("made from name", &[id.clone(), name.clone().into()])?;
            agree("written", &[to_yaml(id), name.as_str().into()])?;
            Ok(json!({ "kind": "name", "value": name.as_str() }))
        }
        _ => Err(json!({ "disagreement": "both id and name" })),
    }
}

fn id(s: &str) -> Result<Value, Value> {
    let Some(id) = from_text!(IdOrName, s) else { return Ok(rejected()) };
    let view = view_id(&id)?;
    agree("read back", &[Some(id.clone()), id.to_string().parse().ok(), serde_yaml::from_value(to_yaml(&id)).ok()])?;
    Ok(json!({ "ok": true, "text": id.to_string(), "kind": view["kind"] }))
}

fn user(s: &str) -> Result<Value, Value> {
    let Some(user) = from_text!(User, s) else { return Ok(rejected()) };
    let text = prints!(user);
    agree("text", &[text.clone(), String::from(user.clone())])?;
    let group = user.group.as_ref().map(view_id).transpose()?;
    let mut same = vec![user.clone()];
    match (user.user.clone(), user.group.clone()) {
        (u, None) => {
            same.push(u.clone().into());
            match u {
                IdOrName::Id(u) => same.push(u.into()),
                IdOrName::Name(u) => same.push(u.into()),
            }
        }
        (u, Some(g)) => {
            same.push((u.clone(), g.clone()).into());
            same.push(match (u, g) {
                (IdOrName::Id(u), IdOrName::Id(g)) => (u, g).into(),
                (IdOrName::Id(u), IdOrName::Name(g)) => (u, g).into(),
                (IdOrName::Name(u), IdOrName::Id(g)) => (u, g).into(),
                (IdOrName::Name(u), IdOrName::Name(g)) => {
                    let pair: (Name, Name) = (u, g);
                    pair.into()
                }
            });
        }
    }
    agree("made from parts", &same)?;
    Ok(json!({ "ok": true, "text": text, "user": view_id(&user.user)?, "group": group.map_or_else(|| json!([]), |g| json!([g])) }))
}

fn view_perms(perms: Permissions) -> Result<String, Value> {
    let Permissions { read, write, mknod } = perms;
    let mut text = String::new();
    for (set, c) in [(read, 'r'), (write, 'w'), (mknod, 'm')] {
        if set {
            text.push(c);
        }
    }
    agree("any", &[perms.any(), !text.is_empty()])?;
    agree("all", &[perms == Permissions::all(), text == "rwm"])?;
    agree("none", &[perms == Permissions::default(), text.is_empty()])?;
    agree("printed", &[perms.to_string(), text.clone()])?;
    Ok(text)
}

fn perms(s: &str) -> Result<Value, Value> {
    let Some(perms) = same("constructors", vec![s.parse::<Permissions>().ok(), Permissions::try_from(s).ok()])? else {
        return Ok(rejected());
    };
    Ok(json!({ "ok": true, "text": view_perms(perms)? }))
}

fn device(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<Device>().ok(), Device::try_from(s).ok(), from_yaml_string(s).ok()])?;
    let Some(device) = made else { return Ok(rejected()) };
    let text = prints!(device);
    let Device { host_path, container_path, permissions } = &device;
    Ok(json!({ "ok": true, "text": text, "host": host_path.to_str(), "container": container_path.as_path().to_str(), "perms": view_perms(*permissions)? }))
}

fn cgroup(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<CgroupRule>().ok(), CgroupRule::try_from(s).ok(), from_yaml_string(s).ok()])?;
    let Some(rule) = made else { return Ok(rejected()) };
    let text = prints!(rule);
    let CgroupRule { kind, major, minor, permissions } = rule;
    let kind_text = match kind {
        Kind::All => 'a',
        Kind::Char => 'c',
        Kind::Block => 'b',
    };
    agree("kind", &[kind.as_char(), kind_text, kind.into()])?;
    agree("kind from text", &[Some(kind), Kind::try_from(kind_text).ok(), kind.to_string().parse().ok(), Kind::try_from(kind.to_string().as_str()).ok()])?;
    let number = |n: MajorMinorNumber| {
        let text = match n {
            MajorMinorNumber::All => "*".to_owned(),
            MajorMinorNumber::Integer(n) => n.to_string(),
        };
        if let MajorMinorNumber::Integer(k) = n {
            agree("number", &[n == k, n == MajorMinorNumber::from(k), n != k.wrapping_add(1)])?;
        }
        agree("number text", &[text.clone(), n.to_string()])?;
        agree("number read back", &[Some(n), text.parse().ok(), MajorMinorNumber::try_from(text.as_str()).ok()])?;
        Ok::<_, Value>(text)
    };
    Ok(json!({ "ok": true, "text": text, "kind": kind_text.to_string(), "major": number(major)?, "minor": number(minor)?,
        "perms": view_perms(permissions)? }))
}

/// The systems on which an architecture is supported.
fn systems(arch: Arch) -> Result<Vec<&'static str>, Value> {
    let mut systems = Vec::new();
    macro_rules! on {
        ($($os:literal => $Ty:ident / $Os:ident),* $(,)?) => {$(
            if let Ok(on) = platform::$Ty::try_from(arch) {
                systems.push($os);
                agree("architecture kept", &[Arch::from(on), arch])?;
                agree("architecture text kept", &[on.as_str(), arch.as_str()])?;
                agree("architecture as platform", &[Some(Platform::$Os(Some(on))), format!("{}/{}", $os, arch.as_str()).parse().ok()])?;
                agree("system", &[platform::$Ty::OS, Os::$Os])?;
            }
        )*};
    }
    on!("aix" => AixArch / Aix, "android" => AndroidArch / Android, "darwin" => DarwinArch / Darwin,
        "dragonfly" => DragonFlyArch / DragonFly, "freebsd" => FreeBsdArch / FreeBsd, "illumos" => IllumosArch / Illumos,
        "ios" => IOsArch / IOs, "js" => JsArch / Js, "linux" => LinuxArch / Linux, "netbsd" => NetBsdArch / NetBsd,
        "openbsd" => OpenBsdArch / OpenBsd, "plan9" => Plan9Arch / Plan9, "solaris" => SolarisArch / Solaris,
        "wasip1" => WasiP1Arch / WasiP1, "windows" => WindowsArch / Windows);
    Ok(systems)
}

fn platform(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<Platform>().ok(), Platform::try_from(s).ok(), from_yaml_string(s).ok()])?;
    let Some(platform) = made else { return Ok(rejected()) };
    let text = prints!(platform);
    agree("text", &[text.as_str(), platform.as_str(), platform.as_ref()])?;
    let (os, arch) = (platform.os(), platform.arch());
    agree("system", &[Some(os), os.as_str().parse().ok(), Os::try_from(os.to_string().as_str()).ok(), serde_yaml::from_value(to_yaml(&os)).ok()])?;
    if let Some(arch) = arch {
        agree("architecture", &[Some(arch), arch.as_str().parse().ok(), Arch::try_from(arch.to_string().as_str()).ok(), serde_yaml::from_value(to_yaml(&arch)).ok()])?;
    } else {
        agree("system alone", &[platform, os.into()])?;
    }
    let systems = arch.map(systems).transpose()?.unwrap_or_default();
    Ok(json!({ "ok": true, "text": text, "os": os.as_str(), "arch": opt(arch.map(|arch| arch.as_str())), "systems": systems }))
}

fn mode(text: String, kind: &str, value: &str) -> Value {
    json!({ "ok": true, "text": text, "kind": kind, "value": value })
}

fn network_mode(s: &str) -> Result<Value, Value> {
    let Some(value) = from_text!(NetworkMode, s) else { return Ok(rejected()) };
    let text = prints!(value);
    agree("text", &[text.clone(), String::from(value.clone()), Cow::<'static, str>::from(value.clone()).into_owned()])?;
    let (kind, part) = match &value {
        NetworkMode::None => ("none", ""),
        NetworkMode::Host => ("host", ""),
        NetworkMode::Service(id) => ("service", id.as_str()),
        NetworkMode::Container(id) => ("container", id.as_str()),
        NetworkMode::Other(other) => ("other", other.as_str()),
    };
    agree(
        "is",
        &[
            [value.is_none(), value.is_host(), value.is_service(), value.is_container(), value.is_other()],
            ["none", "host", "service", "container", "other"].map(|k| k == kind),
        ],
    )?;
    agree(
        "as",
        &[
            [value.as_service().map(Identifier::as_str), value.as_container().map(Identifier::as_str), value.as_other().map(String::as_str)],
            ["service", "container", "other"].map(|k| (k == kind).then_some(part)),
        ],
    )?;
    Ok(mode(text, kind, part))
}

fn ipc(s: &str) -> Result<Value, Value> {
    let Some(value) = from_text!(Ipc, s) else { return Ok(rejected()) };
    let text = prints!(value);
    agree("text", &[text.clone(), String::from(value.clone()), Cow::<'static, str>::from(value.clone()).into_owned()])?;
    let (kind, part) = match &value {
        Ipc::Shareable => ("shareable", ""),
        Ipc::Service(id) => ("service", id.as_str()),
        Ipc::Other(other) => ("other", other.as_str()),
    };
    agree("is", &[[value.is_shareable(), value.is_service(), value.is_other()], ["shareable", "service", "other"].map(|k| k == kind)])?;
    agree(
        "as",
        &[
            [value.as_service().map(Identifier::as_str), value.as_other().map(String::as_str)],
            ["service", "other"].map(|k| (k == kind).then_some(part)),
        ],
    )?;
    Ok(mode(text, kind, part))
}

fn link(s: &str) -> Result<Value, Value> {
    let Some(link) = from_text!(Link, s) else { return Ok(rejected()) };
    let text = prints!(link);
    agree("text", &[text.clone(), String::from(link.clone())])?;
    if link.alias.is_none() {
        agree("from service", &[link.clone(), link.service.clone().into()])?;
    }
    Ok(json!({ "ok": true, "text": text, "service": link.service.as_str(), "alias": opt(link.alias.as_ref()) }))
}

fn volumes_from(s: &str) -> Result<Value, Value> {
    let Some(value) = from_text!(VolumesFrom, s) else { return Ok(rejected()) };
    let text = prints!(value);
    agree("text", &[text.clone(), String::from(value.clone())])?;
    let (kind, name) = match &value.source {
        VolumesFromSource::Service(id) => ("service", id),
        VolumesFromSource::Container(id) => ("container", id),
    };
    let source = value.source.to_string();
    agree("source", &[source.clone(), String::from(value.source.clone())])?;
    agree("source read back", &[Some(value.source.clone()), from_text!(VolumesFromSource, source.as_str())])?;
    if !value.read_only {
        agree("from source", &[value.clone(), value.source.clone().into()])?;
    }
    Ok(json!({ "ok": true, "kind": kind, "name": name.as_str(), "read_only": value.read_only, "text": text }))
}

fn mac(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<MacAddress>().ok(), MacAddress::try_from(s).ok(), from_yaml_string(s).ok()])?;
    let Some(mac) = made else { return Ok(rejected()) };
    let text = prints!(mac);
    let bytes: [u8; 6] = mac.into();
    agree("bytes", &[mac.as_ref(), &bytes[..], &mac.0[..]])?;
    agree("from bytes", &[mac, bytes.into()])?;
    Ok(json!({ "ok": true, "text": text, "bytes": bytes }))
}

fn ssh(s: &str) -> Result<Value, Value> {
    let made = same("constructors", vec![s.parse::<SshAuth>().ok(), from_yaml_string(s).ok()])?;
    let Some(auth) = made else { return Ok(rejected()) };
    let text = prints!(auth);
    agree("default", &[auth == SshAuth::Default, auth.as_id().is_none(), auth.id().is_none(), auth.path().is_none(), text == "default"])?;
    if let Some(id) = auth.as_id() {
        agree("id", &[Some(id.id()), auth.id()])?;
        agree("path", &[Some(id.path()), auth.path()])?;
        agree("id remade", &[Some(id.clone()), SshAuthId::new(id.id(), id.path()).ok(), id.to_string().parse().ok()])?;
        agree("id text", &[id.to_string(), text.clone()])?;
    }
    Ok(json!({ "ok": true, "text": text, "id": opt(auth.id()), "path": opt(auth.path().and_then(|p| p.to_str())) }))
}

fn build_network(s: &str) -> Result<Value, Value> {
    let Some(network) = from_text!(BuildNetwork, s) else { return Ok(rejected()) };
    let text = prints!(network);
    agree("text", &[text.as_str(), network.as_str(), network.as_ref()])?;
    agree("owned text", &[String::from(network.clone()), Cow::<'static, str>::from(network.clone()).into_owned(), text.clone()])?;
    let id = network.clone().into_option();
    agree("none", &[network.is_none(), id.is_none()])?;
    Ok(json!({ "ok": true, "text": text, "id": opt(id) }))
}

fn cache(s: &str) -> Result<Value, Value> {
    let Some(cache) = from_text!(Cache, s) else { return Ok(rejected()) };
    let text = prints!(cache);
    let Cache { cache_type, options } = &cache;
    agree("kind", &[cache_type.is_registry(), cache_type.as_registry().is_some(), !cache_type.is_other(), cache_type.as_other().is_none()])?;
    if options.is_empty() {
        agree("from type", &[cache.clone(), cache_type.clone().into()])?;
        if let CacheType::Registry(image) = cache_type {
            agree("from image", &[cache.clone(), image.clone().into(), Cache::from_image(image.clone())])?;
        }
    }
    let pairs = |options: &mut dyn Iterator<Item = (String, String)>| options.map(|(k, v)| json!([k, v])).collect::<Vec<_>>();
    let (kind, value) = match cache_type {
        CacheType::Registry(image) => ("registry", Image::to_string(image)),
        CacheType::Other(other) => ("other", CacheOption::to_string(other)),
    };
    Ok(json!({
        "ok": true, "text": text, "kind": kind, "value": value,
        "options": pairs(&mut options.iter().map(|(k, v)| (k.to_string(), v.to_string()))),
        "all": pairs(&mut cache.clone().into_options().into_iter().map(|(k, v)| (k.to_string(), v.to_string()))),
    }))
}

fn view_context(s: &str) -> Result<Value, Value> {
    let made = vec![
        Context::parse(s),
        Context::from(s),
        Context::from(s.to_owned()),
        Context::from(Box::<str>::from(s)),
        Context::from(Cow::Borrowed(s)),
        match s.parse() {
            Ok(context) => context,
        },
        from_yaml_string(s).map_err(|e| json!({ "disagreement": e }))?,
    ];
    agree("constructors", &made)?;
    let context = made.into_iter().next().unwrap_or_default();
    let text = prints!(context);
    agree("text", &[Ok(text.clone()), context.clone().into_string()])?;
    let kind = match &context {
        Context::Path(path) => {
            agree("path", &[context.as_path(), Some(path)])?;
            agree("from path", &[context.clone(), path.clone().into(), path.as_path().into(), Cow::Borrowed(path.as_path()).into()])?;
            "path"
        }
        Context::Url(url) => {
            agree("url", &[context.as_url(), Some(url)])?;
            agree("from url", &[context.clone(), url.clone().into()])?;
            "url"
        }
    };
    agree("one kind", &[context.as_path().is_some(), context.as_url().is_none()])?;
    Ok(json!({ "ok": true, "text": text, "kind": kind, "git": context.is_git_repo_url(), "branch": opt(context.branch_or_tag()),
        "subdir": opt(context.subdirectory()) }))
}

fn context(s: &str) -> Result<Value, Value> {
    view_context(s)
}

fn context_url(input: &Value) -> Result<Value, Value> {
    let mut s = format!("{}://{}{}", text(input, "scheme"), text(input, "host"), text(input, "path"));
    if let Some(fragment) = input["fragment"][0].as_str() {
        s.push('#');
        s += fragment;
    }
    view_context(&s)
}
