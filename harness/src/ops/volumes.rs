//! Volumes and their paths.

use std::{
    borrow::Cow,
    path::{Path, PathBuf},
};

use compose_spec::{
    service::volumes::{
        self,
        mount::{Bind, BindOptions, BindPropagation, Cluster, Common, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions},
        AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source, Volumes,
    },
    Extensions, Identifier, Service, ShortOrLong,
};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, hash64, merge, opt, rejected, same, text, to_yaml};

pub fn run(op: &str, input: &Value) -> Value {
    let s = text(input, "s");
    merge(match op {
        "abspath.parse" => abspath(s),
        "hostpath.parse" => hostpath(s),
        "source.parse" => source(s),
        "volume.parse" => volume(s),
        "volume.expand" => expand(s),
        "volume.shorten" => shorten(input),
        "path.edits" => edits(text(input, "kind"), s, &input["es"]),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn show(path: &Path) -> String {
    path.to_str().map_or_else(|| "not text".to_owned(), str::to_owned)
}

/// All the ways of making a path; they must agree to the letter (paths compare by component).
macro_rules! path {
    ($Ty:ty, $s:expr) => {{
        let s: &str = $s;
        let made = vec![
            <$Ty>::new(s).ok(),
            <$Ty>::new(PathBuf::from(s)).ok(),
            s.parse::<$Ty>().ok(),
            <$Ty>::try_from(s).ok(),
            <$Ty>::try_from(s.to_owned()).ok(),
            <$Ty>::try_from(Path::new(s)).ok(),
            <$Ty>::try_from(PathBuf::from(s)).ok(),
            <$Ty>::try_from(Box::<Path>::from(Path::new(s))).ok(),
            <$Ty>::try_from(Cow::Borrowed(Path::new(s))).ok(),
            from_yaml_string::<$Ty>(s).ok(),
        ];
        same("texts", made.iter().map(|p| p.as_ref().map(|p| show(p.as_path()))).collect())?;
        same("constructors", made)?
    }};
}

macro_rules! path_view {
    ($path:expr) => {{
        let path = $path;
        let text = show(path.as_path());
        agree("text", &[
            text.clone(),
            show(path.as_inner()),
            show(&path.clone().into_inner()),
            show(&PathBuf::from(path.clone())),
            show(&Box::<Path>::from(path.clone())),
            show(AsRef::<Path>::as_ref(&path)),
            show(AsRef::<PathBuf>::as_ref(&path)),
            show(std::borrow::Borrow::<Path>::borrow(&path)),
        ])?;
        agree("written", &[to_yaml(&path), serde_yaml::Value::from(text.clone())])?;
        agree("equals", &[path == *Path::new(&text), true])?;
        text
    }};
}

fn abspath(s: &str) -> Result<Value, Value> {
    let Some(path) = path!(AbsolutePath, s) else { return Ok(rejected()) };
    let text = path_view!(path.clone());
    agree("as host path", &[text.clone(), show(HostPath::from(path.clone()).as_path())])?;
    agree("short volume", &[ShortVolume::new(path.clone()), path.clone().into()])?;
    agree("common", &[Common::new(path.clone()), path.into()])?;
    Ok(json!({ "ok": true, "text": text }))
}

fn hostpath(s: &str) -> Result<Value, Value> {
    let Some(path) = path!(HostPath, s) else { return Ok(rejected()) };
    let text = path_view!(path.clone());
    let sources = vec![
        Some(Source::from(path.clone())),
        Source::try_from(PathBuf::from(s)).ok(),
        Source::try_from(Path::new(s)).ok(),
        Source::try_from(Box::<Path>::from(Path::new(s))).ok(),
        Source::try_from(Cow::Borrowed(Path::new(s))).ok(),
        Some(Source::HostPath(path)),
    ];
    agree("source texts", &sources.iter().map(|s| s.as_ref().map(ToString::to_string)).collect::<Vec<_>>())?;
    agree("as source", &sources)?;
    Ok(json!({ "ok": true, "text": text }))
}

fn view_source(source: &Source) -> Value {
    match source {
        Source::HostPath(path) => json!({ "kind": "path", "value": show(path.as_path()) }),
        Source::Volume(id) => json!({ "kind": "volume", "value": id.as_str() }),
    }
}

fn source(s: &str) -> Result<Value, Value> {
    let made = same(
        "constructors",
        vec![Source::parse(s).ok(), s.parse().ok(), Source::try_from(s).ok(), Source::try_from(s.to_owned()).ok()],
    )?;
    let Some(source) = made else { return Ok(rejected()) };
    let view = view_source(&source);
    agree("text", &[text(&view, "value"), &source.to_string()])?;
    Ok(json!({ "ok": true, "text": source.to_string(), "kind": view["kind"] }))
}

/// A service with one volume.
fn through_service(yaml: serde_yaml::Value) -> Option<Volumes> {
    let field = serde_yaml::Value::Sequence(vec![yaml]);
    let doc: serde_yaml::Mapping = [("volumes".into(), field)].into_iter().collect();
    serde_yaml::from_value::<Service>(doc.into()).ok().map(|service| service.volumes)
}

fn parse(s: &str) -> Result<Option<ShortVolume>, Value> {
    let field = through_service(s.into()).and_then(|volumes| match volumes.into_iter().next() {
        Some(ShortOrLong::Short(volume)) => Some(volume),
        _ => None,
    });
    same("constructors", vec![s.parse().ok(), from_yaml_string::<ShortVolume>(s).ok(), field])
}

fn view_short(volume: &ShortVolume) -> Result<Value, Value> {
    let text = volume.to_string();
    agree("read back", &[Some(volume.clone()), text.parse().ok(), serde_yaml::from_value(to_yaml(volume)).ok()])?;
    agree("written", &[to_yaml(volume), serde_yaml::Value::from(text.clone())])?;
    let ShortVolume { container_path, options } = volume;
    let container = show(container_path.as_path());
    Ok(match options {
        None => json!({ "ok": true, "text": text, "container": container, "source": [], "read_only": false, "selinux": [] }),
        Some(ShortOptions { source, read_only, selinux }) => json!({ "ok": true, "text": text, "container": container,
            "source": [view_source(source)], "read_only": read_only, "selinux": opt(*selinux) }),
    })
}

fn volume(s: &str) -> Result<Value, Value> {
    parse(s)?.map_or_else(|| Ok(rejected()), |volume| view_short(&volume))
}

fn view_extensions(extensions: &Extensions) -> Value {
    json!(extensions.keys().map(ToString::to_string).collect::<Vec<_>>())
}

fn no_options() -> Value {
    json!({ "nocopy": false, "subpath": [], "propagation": [], "create": false, "selinux": [], "size": [], "mode": [], "ext": [] })
}

fn view_long(mount: &Mount) -> Result<Value, Value> {
    let mut opts = no_options();
    let (kind, source, has_opts, common) = match mount {
        Mount::Volume(Volume { source, volume, common }) => {
            if let Some(VolumeOptions { nocopy, subpath, extensions }) = volume {
                opts["nocopy"] = json!(nocopy);
                opts["subpath"] = opt(subpath.as_deref().map(show));
                opts["ext"] = view_extensions(extensions);
            }
            ("volume", opt(source.as_ref()), volume.is_some(), common)
        }
        Mount::Bind(Bind { source, bind, common }) => {
            if let Some(BindOptions { propagation, create_host_path, selinux, extensions }) = bind {
                opts["propagation"] = opt(*propagation);
                opts["create"] = json!(create_host_path);
                opts["selinux"] = opt(*selinux);
                opts["ext"] = view_extensions(extensions);
            }
            ("bind", json!([show(source.as_path())]), bind.is_some(), common)
        }
        Mount::Tmpfs(Tmpfs { tmpfs, common }) => {
            if let Some(TmpfsOptions { size, mode, extensions }) = tmpfs {
                opts["size"] = opt(size.as_ref());
                opts["mode"] = opt(*mode);
                opts["ext"] = view_extensions(extensions);
            }
            ("tmpfs", json!([]), tmpfs.is_some(), common)
        }
        Mount::NamedPipe(NamedPipe { source, common }) => ("npipe", json!([show(source.as_path())]), false, common),
        Mount::Cluster(Cluster { source, common }) => ("cluster", json!([source]), false, common),
    };
    agree("kind", &[kind, mount.kind()])?;
    agree("common", &[common, mount.common()])?;
    agree("source", &[opt(mount.source_to_string()), source.clone()])?;
    let is = [mount.is_volume(), mount.is_bind(), mount.is_tmpfs(), mount.is_named_pipe(), mount.is_cluster()];
    let has = [
        mount.as_volume().is_some(),
        mount.as_bind().is_some(),
        mount.as_tmpfs().is_some(),
        mount.as_named_pipe().is_some(),
        mount.as_cluster().is_some(),
    ];
    let kinds = ["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| k == kind);
    agree("is and as", &[is, has, kinds])?;
    Ok(json!({ "type": kind, "source": source, "target": show(common.target.as_path()), "read_only": common.read_only,
        "consistency": opt(common.consistency.as_ref()), "ext": view_extensions(&common.extensions),
        "opts": if has_opts { json!([opts]) } else { json!([]) } }))
}

fn expand(s: &str) -> Result<Value, Value> {
    let Some(short) = parse(s)? else { return Ok(rejected()) };
    let long = short.clone().into_long();
    let one: Volumes = [ShortOrLong::Short(short.clone())].into_iter().collect();
    agree("expanded", &[
        vec![long.clone()],
        vec![Mount::from(short.clone())],
        vec![ShortOrLong::<ShortVolume, Mount>::Short(short.clone()).into_long()],
        volumes::into_long_iter(one.clone()).collect(),
    ])?;
    agree("left short", &[volumes::into_short_iter(one).collect::<Vec<_>>(), vec![Ok(short.clone())]])?;
    // Relabelling is a bind mount option: a named volume does not take it along.
    let mut plain = short.clone();
    if let Some(ShortOptions { source: Source::Volume(_), selinux, .. }) = &mut plain.options {
        *selinux = None;
    }
    agree("there and back", &[long.clone().into_short(), Ok(plain.clone())])?;
    agree("text there and back", &[long.clone().into_short().map(|s| s.to_string()), Ok(plain.to_string())])?;
    Ok(json!({ "ok": true, "text": short.to_string(), "long": view_long(&long)? }))
}

fn build_long(input: &Value) -> Option<Mount> {
    let get = |value: &Value, key: &str| value[key][0].as_str().map(str::to_owned);
    let extensions = |value: &Value| -> Option<Extensions> {
        value["ext"].as_array()?.iter().map(|k| Some((k.as_str()?.parse().ok()?, serde_yaml::Value::Null))).collect()
    };
    let common = Common {
        read_only: input["read_only"].as_bool()?,
        consistency: get(input, "consistency"),
        extensions: extensions(input)?,
        ..Common::new(text(input, "target").parse().ok()?)
    };
    let source = get(input, "source");
    let opts = input["opts"].get(0);
    Some(match text(input, "type") {
        "volume" => Mount::Volume(Volume {
            source: source.map(Identifier::new).transpose().ok()?,
            volume: match opts {
                None => None,
                Some(o) => Some(VolumeOptions {
                    nocopy: o["nocopy"].as_bool()?,
                    subpath: get(o, "subpath").map(Into::into),
                    extensions: extensions(o)?,
                }),
            },
            common,
        }),
        "bind" => Mount::Bind(Bind {
            source: source?.parse().ok()?,
            bind: match opts {
                None => None,
                Some(o) => Some(BindOptions {
                    propagation: match get(o, "propagation").as_deref() {
                        None => None,
                        Some("private") => Some(BindPropagation::Private),
                        Some("shared") => Some(BindPropagation::Shared),
                        Some("slave") => Some(BindPropagation::Slave),
                        Some("unbindable") => Some(BindPropagation::Unbindable),
                        Some("rprivate") => Some(BindPropagation::RPrivate),
                        Some("rshared") => Some(BindPropagation::RShared),
                        Some("rslave") => Some(BindPropagation::RSlave),
                        Some("runbindable") => Some(BindPropagation::RUnbindable),
                        _ => return None,
                    },
                    create_host_path: o["create"].as_bool()?,
                    selinux: match get(o, "selinux").as_deref() {
                        None => None,
                        Some("z") => Some(SELinux::Shared),
                        Some("Z") => Some(SELinux::Private),
                        _ => return None,
                    },
                    extensions: extensions(o)?,
                }),
            },
            common,
        }),
        "tmpfs" => Mount::Tmpfs(Tmpfs {
            tmpfs: match opts {
                None => None,
                Some(o) => Some(TmpfsOptions {
                    size: get(o, "size").map(|s| s.parse()).transpose().ok()?,
                    mode: get(o, "mode").map(|s| s.parse()).transpose().ok()?,
                    extensions: extensions(o)?,
                }),
            },
            common,
        }),
        "npipe" => Mount::NamedPipe((source?.parse().ok()?, common).into()),
        "cluster" => Mount::Cluster((source?, common).into()),
        _ => return None,
    })
}

fn shorten(input: &Value) -> Result<Value, Value> {
    let long = build_long(input).ok_or_else(|| json!({ "bad-input": input }))?;
    agree("view", &[view_long(&long)?, input.clone()])?;
    if let Some(opts) = input["opts"].get(0) {
        let empty = match &long {
            Mount::Volume(v) => v.volume.as_ref().map(VolumeOptions::is_empty),
            Mount::Bind(v) => v.bind.as_ref().map(BindOptions::is_empty),
            Mount::Tmpfs(v) => v.tmpfs.as_ref().map(TmpfsOptions::is_empty),
            _ => None,
        };
        agree("empty", &[empty, Some(*opts == no_options())])?;
    }
    let field = through_service(to_yaml(&long)).map(|v| v.into_iter().collect::<Vec<_>>());
    agree("read back", &[Some(long.clone()), serde_yaml::from_value(to_yaml(&long)).ok()])?;
    agree("read back as field", &[field, Some(vec![ShortOrLong::Long(long.clone())])])?;
    agree("hash", &[hash64(&long), hash64(&long.clone())])?;
    let one: Volumes = [ShortOrLong::Long(long.clone())].into_iter().collect();
    let short = long.clone().into_short();
    agree("shortened", &[vec![short.clone()], volumes::into_short_iter(one.clone()).collect()])?;
    agree("left long", &[vec![long.clone()], volumes::into_long_iter(one).collect()])?;
    Ok(match short {
        Ok(short) => json!({ "ok": true, "text": short.to_string(), "again": view_long(&short.into_long())? }),
        Err(same) => {
            agree("given back", &[same, long])?;
            rejected()
        }
    })
}

fn edits(kind: &str, s: &str, edits: &Value) -> Result<Value, Value> {
    macro_rules! run {
        ($Ty:ty) => {{
            let mut path = <$Ty>::new(s).map_err(|_| json!({ "bad-input": s }))?;
            let mut views = Vec::new();
            for edit in edits.as_array().into_iter().flatten() {
                let done = match text(edit, "e") {
                    "pop" => path.pop(),
                    _ => {
                        path.push(text(edit, "v"));
                        true
                    }
                };
                let text = path_view!(path.clone());
                agree("still valid", &[<$Ty>::new(text.as_str()).ok(), Some(path.clone())])?;
                views.push(json!({ "done": done, "text": text }));
            }
            Ok(json!({ "views": views }))
        }};
    }
    match kind {
        "abspath" => run!(AbsolutePath),
        _ => run!(HostPath),
    }
}
