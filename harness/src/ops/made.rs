//! Values made by conversions and constructors, against those read from a document.

use std::{
    fmt::Debug,
    num::NonZeroU16,
    path::{Path, PathBuf},
};

use compose_spec::{
    config, secret,
    service::{
        blkio_config::Weight,
        build::{Cache, CacheOption, CacheType, SshAuth, SshAuthId},
        deploy::resources::{Count, Cpus, Device as ReservedDevice},
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        env_file::{self, EnvFile},
        healthcheck::{self, Healthcheck, Test},
        network_config::{MacAddress, NetworkConfig, NetworkMode, Networks},
        ports::{Port, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName, User},
        volumes::{
            mount::{Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, Volume as VolumeMount},
            AbsolutePath, HostPath, SELinux, ShortOptions, ShortVolume, Source,
        },
        ByteValue, Command, Expose, Image, Ipc, Limit, Link, OomScoreAdj, Percent, Ulimit, VolumesFrom, VolumesFromSource,
    },
    Config, Identifier, Include, ItemOrList, Network, Resource, Secret, Service, ShortOrLong, Volume,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::{
    ops::document,
    util::{agree, merge, rejected, same, text, to_yaml},
};

/// How values of a type are made from texts; the node is how it is written.
struct Asked<'a> {
    node: &'a Value,
}

impl Asked<'_> {
    /// All were made alike, and as what is read; written as it is written.
    fn made<T: Serialize + DeserializeOwned + PartialEq + Clone + Debug>(&self, made: Vec<Option<T>>) -> Result<Value, Value> {
        let read: Option<T> = serde_yaml::from_value(document::build(self.node)).ok();
        let Some(value) = same("made and read", made.into_iter().chain([read]).collect())? else { return Ok(rejected()) };
        Ok(json!({ "ok": true, "tree": document::view("", &to_yaml(&value)) }))
    }

    fn one<T: Serialize + DeserializeOwned + PartialEq + Clone + Debug>(&self, made: T) -> Result<Value, Value> {
        self.made(vec![Some(made)])
    }
}

/// From every integer type the number fits in.
macro_rules! ints {
    ($n:expr => $($int:ty: $make:expr),* $(,)?) => {{
        let n: i128 = $n;
        let mut made = Vec::new();
        $(if let Ok(n) = <$int>::try_from(n) {
            made.push($make(n));
        })*
        made
    }};
}

fn identifier(s: &str) -> Identifier {
    Identifier::new(s).expect("the specification's identifiers are")
}

fn absolute(s: &str) -> AbsolutePath {
    AbsolutePath::new(s).expect("the specification's absolute paths are")
}

fn host(s: &str) -> HostPath {
    HostPath::new(s).expect("the specification's host paths are")
}

fn permissions(s: &str) -> Permissions {
    Permissions { read: s.contains('r'), write: s.contains('w'), mknod: s.contains('m') }
}

fn number(s: &str) -> MajorMinorNumber {
    s.parse::<u16>().map_or(MajorMinorNumber::All, Into::into)
}

fn range(start: &str, end: &str) -> Result<Option<Range>, Value> {
    let (Ok(start), Ok(end)) = (start.parse::<u16>(), end.parse::<u16>()) else { return Ok(None) };
    let made = same(
        "ranges",
        vec![
            Range::new(start, Some(end)).ok(),
            Range::try_from((start, end)).ok(),
            Range::try_from((start, Some(end))).ok(),
            Range::try_from(start..=end).ok(),
        ],
    )?;
    if let Some(made) = made {
        agree("start", &[made.start(), start])?;
        agree("end", &[made.end().unwrap_or(start), end])?;
        agree("equals", &[made == (start..=end), true])?;
        agree("equals another", &[made == (start..=end.wrapping_add(1)), made == (start.wrapping_add(1)..=end), false])?;
        agree("equals one", &[made == start, start == end])?;
    }
    Ok(made)
}

fn id_or_name(s: &str) -> IdOrName {
    s.parse::<u32>().map_or_else(|_| UserName::new(s).expect("the specification's names are").into(), Into::into)
}

fn list(args: &[&str]) -> Vec<String> {
    args.iter().map(|&s| s.to_owned()).collect()
}

fn source(s: &str) -> Source {
    if !s.starts_with(['/', '.', '~']) {
        return identifier(s).into();
    }
    s.parse::<AbsolutePath>().map_or_else(|_| host(s).into(), Into::into)
}

pub fn run(op: &str, input: &Value) -> Value {
    if op != "made.of" {
        return json!({ "unknown-op": op });
    }
    let args: Vec<&str> = input["args"].as_array().into_iter().flatten().filter_map(Value::as_str).collect();
    merge(make(text(input, "how"), &args, &Asked { node: &input["node"] }))
}

fn make(how: &str, args: &[&str], asked: &Asked) -> Result<Value, Value> {
    let arg = |i: usize| args.get(i).copied().unwrap_or_default();
    let one = arg(0);
    let n: i128 = one.parse().unwrap_or_default();
    match how {
        "percent" => {
            let made = ints!(n => u8: |n| Percent::new(n).ok(), u8: |n| Percent::try_from(n).ok());
            if let Some(Some(made)) = made.first() {
                agree("into", &[i128::from(u8::from(*made)), i128::from(made.into_inner()), n])?;
                agree("equals", &[*made == u8::try_from(n).unwrap_or_default(), *made != u8::try_from(n + 1).unwrap_or_default()])?;
            }
            asked.made(made)
        }
        "oom" => {
            let made = ints!(n => i16: |n| OomScoreAdj::new(n).ok(), i16: |n| OomScoreAdj::try_from(n).ok());
            if let Some(Some(made)) = made.first() {
                agree("into", &[i128::from(i16::from(*made)), n])?;
                agree("equals", &[*made == i16::try_from(n).unwrap_or_default(), *made != i16::try_from(n + 1).unwrap_or_default()])?;
            }
            asked.made(made)
        }
        "weight" => {
            let mut made = ints!(n => u16: |n| Weight::new(n).ok(), u16: |n| Weight::try_from(n).ok());
            if let Ok(n) = u16::try_from(n).map_err(drop).and_then(|n| NonZeroU16::new(n).ok_or(())) {
                made.extend([Weight::new(n).ok(), Weight::try_from(n).ok()]);
            }
            if let Some(Some(made)) = made.first() {
                agree("into", &[i128::from(u16::from(*made)), i128::from(NonZeroU16::from(*made).get()), i128::from(made.into_inner().get()), n])?;
            }
            asked.made(made)
        }
        "cpus.int" => {
            let made = ints!(n => u8: |n| Some(Cpus::from(n)), u16: |n| Some(Cpus::from(n)), u32: |n| Some(Cpus::from(n)),
                i8: |n| Cpus::try_from(n).ok(), i16: |n| Cpus::try_from(n).ok(), i32: |n| Cpus::try_from(n).ok(),
                u8: |n| Cpus::new(n).ok(), i16: |n| Cpus::new(n).ok(), u32: |n| Cpus::new(n).ok());
            if let Some(Some(made)) = made.first() {
                agree("into", &[f64::from(*made), made.into_inner(), one.parse().unwrap_or_default()])?;
            }
            asked.made(made)
        }
        "cpus.float" => {
            let n: f64 = one.parse().unwrap_or(f64::NAN);
            let mut made = vec![Cpus::new(n).ok(), Cpus::try_from(n).ok()];
            #[allow(clippy::cast_possible_truncation)]
            let short = n as f32;
            if f64::from(short).to_bits() == n.to_bits() || n.is_nan() {
                made.extend([Cpus::new(short).ok(), Cpus::try_from(short).ok()]);
            }
            if let Some(Some(made)) = made.first() {
                agree("into", &[f64::from(*made), made.into_inner(), n])?;
                agree("compares", &[*made == n, *made <= n, *made >= n, *made < n + 1.0, *made > n - 1.0])?;
            }
            // (Text that is no number is refused, as what is not finite is.)
            asked.made(made)
        }
        "count" => {
            let n = u64::try_from(n).unwrap_or_default();
            let made = Count::from(n);
            agree("equals", &[made == n, made != n.wrapping_add(1)])?;
            asked.made(vec![Some(made), Some(Count::Integer(n))])
        }
        "count.all" => asked.one(Count::All),
        "limit.u32" => asked.made(ints!(n => u32: |n| Some(Limit::<u32>::from(n)), u32: |n| Some(Limit::Value(n)))),
        "limit.u64" => asked.made(ints!(n => u64: |n| Some(Limit::<u64>::from(n)), u64: |n| Some(Limit::Value(n)))),
        "limit.bytes" => asked.made(ints!(n => u64: |n| Some(Limit::from(ByteValue::Bytes(n))), u64: |n| Some(Limit::Value(ByteValue::Bytes(n))))),
        "limit.u32.none" => asked.made(vec![Some(Limit::<u32>::Unlimited), Some(Limit::default())]),
        "limit.u64.none" => asked.made(vec![Some(Limit::<u64>::Unlimited), Some(Limit::default())]),
        "limit.bytes.none" => asked.made(vec![Some(Limit::<ByteValue>::Unlimited), Some(Limit::default())]),
        "bytes.b" => asked.made(ints!(n => u64: |n| Some(ByteValue::Bytes(n)))),
        "bytes.kb" => asked.made(ints!(n => u64: |n| Some(ByteValue::Kilobytes(n)))),
        "bytes.mb" => asked.made(ints!(n => u64: |n| Some(ByteValue::Megabytes(n)))),
        "bytes.gb" => asked.made(ints!(n => u64: |n| Some(ByteValue::Gigabytes(n)))),
        "short.limit" => asked.made(ints!(n =>
            u64: |n| Some(ShortOrLong::<Limit<u64>, Ulimit>::from(n)),
            u64: |n| Some(ShortOrLong::<Limit<u64>, Ulimit>::from(Limit::Value(n))))),
        "ulimit" | "ulimit.number" => asked.made(ints!(n =>
            u64: |n| Some(Ulimit::from(n)),
            u64: |n| Some(Ulimit::from(Limit::Value(n))),
            u64: |n| Some(Ulimit::from(ShortOrLong::<Limit<u64>, Ulimit>::Short(Limit::Value(n)))),
            u64: |n| Some(ShortOrLong::<Limit<u64>, Ulimit>::from(n).into_long()))),
        "range.one" => asked.made(ints!(n =>
            u16: |n| Some(Range::from(n)), u16: |n| Range::new(n, None).ok(), u16: |n| Range::new(n, Some(n)).ok(),
            u16: |n| Range::try_from((n, n)).ok(), u16: |n| Range::try_from((n, None)).ok(), u16: |n| Range::try_from(n..=n).ok())),
        "range.pair" => asked.made(vec![range(one, arg(1))?]),
        "expose.one" => asked.made(ints!(n =>
            u16: |n| Some(Expose::from(n)), u16: |n| Some(Expose::from(Range::from(n))),
            u16: |n| Some(Expose { range: Range::from(n), protocol: None }))),
        "expose" => {
            let protocol = (!arg(2).is_empty()).then(|| arg(2).into());
            asked.made(vec![range(one, arg(1))?.map(|range| Expose { range, protocol })])
        }
        "port.one" => asked.made(ints!(n =>
            u16: |n| Some(ShortPort::from(n)), u16: |n| Some(ShortPort::from(Range::from(n))),
            u16: |n| Some(ShortPort::from(ShortRanges::from(n))), u16: |n| Some(ShortPort::new(ShortRanges::from(Range::from(n)))),
            u16: |n| ShortRanges::new(None, Range::from(n)).ok().map(ShortPort::new))),
        "port.range" => {
            let container = range(one, arg(1))?;
            asked.made(vec![
                container.map(ShortPort::from),
                container.map(|range| ShortRanges::from(range).into()),
                container.and_then(|range| ShortRanges::new(None, range).ok()).map(ShortPort::new),
            ])
        }
        "port" => {
            let (container, protocol) = (range(arg(3), arg(4))?, (!arg(5).is_empty()).then(|| arg(5).into()));
            let host = if arg(1).is_empty() { None } else { Some(range(arg(1), arg(2))?) };
            let ranges = match (host, container) {
                (Some(None), _) | (_, None) => None,
                (Some(Some(host)), Some(container)) => {
                    let made = ShortRanges::new(Some(host), container).ok();
                    let mut later = ShortRanges::from(container);
                    let replaced = later.replace_host(host).ok().map(|_| later);
                    same("host", vec![made, replaced])?
                }
                (None, Some(container)) => ShortRanges::new(None, container).ok(),
            };
            let host_ip = one.parse().ok();
            asked.made(vec![ranges.map(|ranges| ShortPort { host_ip, ranges, protocol })])
        }
        "longport.one" => asked.made(ints!(n => u16: |n| Some(Port::new(n)), u16: |n| Some(Port::from(n)))),
        "user.one" => {
            let made = match id_or_name(one) {
                IdOrName::Id(n) => vec![User::from(n), IdOrName::from(n).into()],
                IdOrName::Name(name) => vec![User::from(name.clone()), IdOrName::from(name).into()],
            };
            asked.made(made.into_iter().map(Some).collect())
        }
        "user.pair" => {
            let (user, group) = (id_or_name(one), id_or_name(arg(1)));
            let made = match (user.clone(), group.clone()) {
                (IdOrName::Id(u), IdOrName::Id(g)) => User::from((u, g)),
                (IdOrName::Id(u), IdOrName::Name(g)) => User::from((u, g)),
                (IdOrName::Name(u), IdOrName::Id(g)) => User::from((u, g)),
                (IdOrName::Name(u), IdOrName::Name(g)) => User::from((u, g)),
            };
            asked.made(vec![Some(made), Some(User::from((user.clone(), group.clone()))), Some(User { user, group: Some(group) })])
        }
        "id" => asked.one(id_or_name(one)),
        "mac" => {
            let mut bytes = [0; 6];
            for (i, byte) in bytes.iter_mut().enumerate() {
                *byte = arg(i).parse().unwrap_or_default();
            }
            agree("bytes", &[<[u8; 6]>::from(MacAddress::from(bytes)), bytes])?;
            asked.made(vec![Some(MacAddress::from(bytes)), Some(MacAddress(bytes))])
        }
        "device" => asked.one(Device { host_path: one.into(), container_path: absolute(arg(1)), permissions: permissions(arg(2)) }),
        "cgrouprule" => {
            let kind = one.chars().next().and_then(|c| Kind::try_from(c).ok()).ok_or_else(|| json!("no kind"))?;
            agree("kind", &[kind.as_char().to_string(), char::from(kind).to_string(), kind.to_string(), one.to_owned()])?;
            asked.one(CgroupRule { kind, major: number(arg(1)), minor: number(arg(2)), permissions: permissions(arg(3)) })
        }
        "command.text" => asked.made(vec![Some(Command::from(one.to_owned())), Some(Command::String(one.to_owned()))]),
        "command.list" => asked.made(vec![Some(Command::from(list(args))), Some(Command::List(list(args)))]),
        "healthcheck.text" => asked.made(tested([Test::from(one.to_owned()), Test::ShellCommand(one.to_owned())])),
        "healthcheck.list" => asked.made(tested([Test::from(list(args)), Test::Command(list(args))])),
        "healthcheck.disable" => asked.one(Healthcheck::Disable),
        "healthcheck.default" => asked.made(vec![Some(Healthcheck::default()), Some(healthcheck::Command::default().into())]),
        "envfile.text" => asked.made(vec![Some(EnvFile::from(one.to_owned())), Some(EnvFile::from(PathBuf::from(one))), Some(EnvFile::Single(one.into()))]),
        "envfile.list" => {
            let paths: Vec<ShortOrLong<PathBuf, env_file::Config>> = args.iter().map(|&s| ShortOrLong::Short(PathBuf::from(s))).collect();
            asked.made(vec![
                Some(EnvFile::from(paths)),
                Some(args.iter().map(PathBuf::from).collect()),
                Some(list(args).into_iter().collect()),
            ])
        }
        "envfile.config" => asked.made(vec![Some(env_file::Config::from(one.to_owned())), Some(env_file::Config::from(PathBuf::from(one)))]),
        "include" => asked.made(vec![
            Some(Include::from(PathBuf::from(one))),
            Some(Include::from(ShortOrLong::<PathBuf, Include>::Short(one.into()))),
            Some(ShortOrLong::<PathBuf, Include>::from(one.to_owned()).into_long()),
        ]),
        "short.path" => asked.made(vec![
            Some(ShortOrLong::<PathBuf, Include>::from(one.to_owned())),
            Some(ShortOrLong::<PathBuf, Include>::from(PathBuf::from(one))),
        ]),
        "config.file" => asked.made(vec![
            Some(Resource::from(Config::from(config::Source::from(PathBuf::from(one))))),
            Some(Resource::Compose(Config::from(config::Source::File(one.into())))),
        ]),
        "config.environment" => asked.one(Resource::from(Config::from(config::Source::Environment(one.into())))),
        "config.content" => asked.one(Resource::from(Config::from(config::Source::Content(one.into())))),
        "secret.file" => asked.made(vec![
            Some(Resource::from(Secret::from(secret::Source::from(PathBuf::from(one))))),
            Some(Resource::Compose(Secret::from(secret::Source::File(one.into())))),
        ]),
        "secret.environment" => asked.one(Resource::from(Secret::from(secret::Source::Environment(one.into())))),
        "external.network" => asked.one(external::<Network>(one)?),
        "external.volume" => asked.one(external::<Volume>(one)?),
        "external.config" => asked.one(external::<Config>(one)?),
        "external.secret" => asked.one(external::<Secret>(one)?),
        "network.default" => asked.one(Resource::from(Network::default())),
        "volume.default" => asked.one(Resource::from(Volume::default())),
        "item.one" => asked.made(vec![Some(ItemOrList::from(one.to_owned())), Some(ItemOrList::Item(one.to_owned()))]),
        "item.list" => {
            let items: IndexSet<String> = list(args).into_iter().collect();
            agree("list", &[IndexSet::from(ItemOrList::from(items.clone())), ItemOrList::List(items.clone()).into_list(), items.clone()])?;
            asked.made(vec![Some(ItemOrList::from(items.clone())), Some(ItemOrList::List(items))])
        }
        "link" => asked.made(vec![Some(Link::from(identifier(one))), Some(Link { service: identifier(one), alias: None })]),
        "link.alias" => asked.one(Link { service: identifier(one), alias: Some(arg(1).to_owned()) }),
        "volumesfrom" => {
            let service = identifier(arg(1));
            let source = if one == "service" { VolumesFromSource::Service(service) } else { VolumesFromSource::Container(service) };
            let read_only = arg(2) == "ro";
            agree("text", &[String::from(source.clone()), source.to_string()])?;
            let mut made = vec![Some(VolumesFrom { source: source.clone(), read_only })];
            if !read_only {
                made.push(Some(source.into()));
            }
            asked.made(made)
        }
        "netmode.service" => asked.one(NetworkMode::Service(identifier(one))),
        "netmode.container" => asked.one(NetworkMode::Container(identifier(one))),
        "ipc.service" => asked.one(Ipc::Service(identifier(one))),
        "network.mode" => {
            let mode: NetworkMode = one.parse().map_err(|_| json!("no mode"))?;
            let service = |config| Service { network_config: Some(config), ..Service::default() };
            asked.made(vec![Some(service(NetworkConfig::from(mode.clone()))), Some(service(NetworkConfig::NetworkMode(mode)))])
        }
        "networks" => {
            let names: IndexSet<_> = args.iter().map(|s| identifier(s)).collect();
            let networks = Networks::Short(names);
            asked.made(vec![
                Some(Service { network_config: Some(NetworkConfig::from(networks.clone())), ..Service::default() }),
                Some(Service { network_config: Some(NetworkConfig::Networks(networks)), ..Service::default() }),
            ])
        }
        "depends" => asked.one(Service { depends_on: ShortOrLong::Short(args.iter().map(|s| identifier(s)).collect()), ..Service::default() }),
        "cache.image" => {
            let image = Image::parse(one).map_err(|e| json!(e.to_string()))?;
            asked.made(vec![
                Some(Cache::from_image(image.clone())),
                Some(Cache::from(image.clone())),
                Some(Cache::from(CacheType::from(image.clone()))),
                Some(Cache { cache_type: CacheType::Registry(image), options: IndexMap::new() }),
            ])
        }
        "cacheoption.image" => asked.one(CacheOption::from(Image::parse(one).map_err(|e| json!(e.to_string()))?)),
        "cache" => {
            let option = |s: &str| CacheOption::new(s).map_err(|e| json!(e.to_string()));
            let cache_type = CacheType::Other(option(one)?);
            let mut options = IndexMap::new();
            for pair in args[1..].chunks(2) {
                options.insert(option(pair[0])?, option(pair[1])?);
            }
            asked.one(Cache { cache_type, options })
        }
        "ssh.default" => asked.made(vec![Some(SshAuth::default()), Some(SshAuth::Default)]),
        "ssh" => {
            let made = SshAuthId::new(one, arg(1)).ok();
            if let Some(made) = &made {
                agree("id", &[made.id(), one])?;
                agree("path", &[made.path(), Path::new(arg(1))])?;
            }
            asked.made(vec![made.map(SshAuth::Id)])
        }
        "capabilities" => asked.one(ReservedDevice::new(args.iter().copied())),
        "volume.target" => asked.made(vec![
            Some(ShortVolume::from(absolute(one))),
            Some(ShortVolume::new(absolute(one))),
            Some(ShortVolume { container_path: absolute(one), options: None }),
        ]),
        "volume" => {
            let (read_only, selinux) = (arg(2) == "ro", match arg(3) {
                "z" => Some(SELinux::Shared),
                "Z" => Some(SELinux::Private),
                _ => None,
            });
            let source = source(one);
            agree("parsed", &[Some(source.clone()), Source::parse(one).ok()])?;
            if let Source::HostPath(_) = source {
                agree("paths", &[Some(source.clone()), Source::try_from(PathBuf::from(one)).ok(), Source::try_from(Path::new(one)).ok()])?;
            }
            let volume = |options| ShortVolume { container_path: absolute(arg(1)), options: Some(options) };
            let mut made = vec![Some(volume(ShortOptions { source: source.clone(), read_only, selinux }))];
            if !read_only && selinux.is_none() {
                made.extend([Some(volume(ShortOptions::new(source.clone()))), Some(volume(source.into()))]);
            }
            asked.made(made)
        }
        "mount.tmpfs" => {
            let common = || Common::from(absolute(one));
            asked.made(vec![
                Some(Mount::from(Tmpfs::from(absolute(one)))),
                Some(Mount::Tmpfs(Tmpfs::from_target(absolute(one)))),
                Some(Mount::Tmpfs(Tmpfs::from(common()))),
                Some(Mount::Tmpfs(Tmpfs::new(Common::new(absolute(one))))),
            ])
        }
        "mount.volume" => asked.made(vec![
            Some(Mount::from(VolumeMount::from(Common::new(absolute(one))))),
            Some(Mount::Volume(VolumeMount::new(absolute(one).into()))),
            Some(Mount::from(ShortVolume::from(absolute(one)))),
        ]),
        "mount.bind" => asked.made(vec![
            Some(Mount::from(Bind::from((host(one), Common::new(absolute(arg(1))))))),
            Some(Mount::Bind(Bind::new(host(one), absolute(arg(1)).into()))),
        ]),
        "mount.npipe" => asked.one(Mount::from(NamedPipe::from((host(one), Common::new(absolute(arg(1))))))),
        "mount.cluster" => asked.one(Mount::from(Cluster::from((one.to_owned(), Common::new(absolute(arg(1))))))),
        "bind.propagation" => {
            let propagation = [
                BindPropagation::Private,
                BindPropagation::RPrivate,
                BindPropagation::Shared,
                BindPropagation::RShared,
                BindPropagation::Slave,
                BindPropagation::RSlave,
            ]
            .into_iter()
            .find(|p| p.as_str() == one)
            .ok_or_else(|| json!("no propagation"))?;
            asked.made(vec![Some(BindOptions::from(propagation)), Some(BindOptions::from(Some(propagation)))])
        }
        "bind.selinux" => {
            let selinux = if one == "z" { SELinux::Shared } else { SELinux::Private };
            asked.made(vec![Some(BindOptions::from(selinux)), Some(BindOptions::from(Some(selinux)))])
        }
        _ => Err(json!({ "unknown-how": how })),
    }
}

fn tested(tests: [Test; 2]) -> Vec<Option<Healthcheck>> {
    tests
        .into_iter()
        .flat_map(|test| {
            let command = healthcheck::Command { test: Some(test), ..healthcheck::Command::default() };
            [Some(Healthcheck::from(command.clone())), Some(Healthcheck::Command(command))]
        })
        .collect()
}

/// An external resource: by the name it has elsewhere, if it has another.
fn external<T>(name: &str) -> Result<Resource<T>, Value> {
    let made = Resource::external((!name.is_empty()).then(|| name.to_owned()));
    agree("kind", &[made.is_external(), !made.is_compose(), made.as_compose().is_none()])?;
    Ok(made)
}
