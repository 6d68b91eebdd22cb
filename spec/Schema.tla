------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The Compose document: every section, its fields, and what each field    *)
(* takes.  Canon(type, x) is the node that x is written back as once read  *)
(* as `type`, or None when x is not acceptable.                            *)
(*                                                                         *)
(* A type is [g, a, s]: its sort, a name, and component types.             *)
(*   leaf / kw       a scalar (Leaves)                                     *)
(*   list / set      of s[1]; a set keeps the first of equal items         *)
(*   map / nmap      from keys of kind a to s[1] (nmap: or null)           *)
(*   or              s[1] for a scalar, s[2] for a list, s[3] for a mapping*)
(*   sec             section a                                             *)
(*   own             one of the special rules below                        *)
(* A field is [f, m, ty], with the mode m:                                 *)
(*   opt   may be absent, or null for absent                               *)
(*   some  may be absent, but not null                                     *)
(*   dflt  may be absent, not null; not written when empty or false        *)
(*   true  a boolean which is true when absent, not written when true      *)
(*   req   must be present                                                 *)
(***************************************************************************)
EXTENDS Leaves

Ty(g, a, s) == [g |-> g, a |-> a, s |-> s]
Lf(a) == Ty("leaf", a, <<>>)
Kw(a) == Ty("kw", a, <<>>)
ListOf(t) == Ty("list", "", <<t>>)
SetOf(t) == Ty("set", "", <<t>>)
MapOf(k, t) == Ty("map", k, <<t>>)
NullableMapOf(k, t) == Ty("nmap", k, <<t>>)
Or(scalar, list, map) == Ty("or", "", <<scalar, list, map>>)
Sec(a) == Ty("sec", a, <<>>)
Own(a) == Ty("own", a, <<>>)
Never == Lf("never")
Str == Lf("str")
Path == Lf("path")
U64 == Lf("u64")
U32 == Lf("u32")
BoolT == Lf("bool")
Ident == Lf("identifier")
Bytes == Lf("bytes")
ItemOrList(t) == Or(t, SetOf(t), Never)
ShortOrLong(short, long) == Or(short, short, long)
ListOrMap == Or(Never, SetOf(Str), NullableMapOf("key.map", Lf("value")))
DriverOpts == MapOf("key.map", Lf("strnum"))

Fd(f, m, ty) == [f |-> f, m |-> m, ty |-> ty]
Opt(f, ty) == Fd(f, "opt", ty)
Dft(f, ty) == Fd(f, "dflt", ty)
Req(f, ty) == Fd(f, "req", ty)
Flag(f) == Dft(f, BoolT)
Section(name, ext, fs) ==
    [name |-> name, ext |-> ext, fs |-> fs,
     by |-> [n \in {fs[i].f : i \in 1..Len(fs)} |-> fs[CHOOSE i \in 1..Len(fs) : fs[i].f = n]]]

ComposeSec == Section("Compose", TRUE, <<
    Opt("version", Str), Opt("name", Lf("name")), Dft("include", ListOf(ShortOrLong(Path, Sec("Include")))),
    Req("services", MapOf("key.identifier", Sec("Service"))),
    Dft("networks", NullableMapOf("key.identifier", Own("network"))), Dft("volumes", NullableMapOf("key.identifier", Own("volume"))),
    Dft("configs", MapOf("key.identifier", Own("config"))), Dft("secrets", MapOf("key.identifier", Own("secret")))>>)
IncludeSec == Section("Include", FALSE, <<
    Req("path", ItemOrList(Path)), Opt("project_directory", Str), Opt("env_file", ItemOrList(Path))>>)

CommandT == Or(Str, ListOf(Str), Never)
ConfigsT == ListOf(ShortOrLong(Ident, Sec("ConfigOrSecret")))
UlimitsT == MapOf("key.ulimit", ShortOrLong(Lf("limit.u64"), Sec("Ulimit")))
ServiceSec == Section("Service", TRUE, <<
    Fd("attach", "true", BoolT), Opt("build", ShortOrLong(Lf("context"), Sec("Build"))), Opt("blkio_config", Sec("Blkio")),
    Opt("cpu_count", U64), Opt("cpu_percent", Lf("percent")), Opt("cpu_shares", U64), Opt("cpu_period", Lf("micros")),
    Opt("cpu_quota", Lf("micros")), Fd("cpu_rt_runtime", "some", Lf("duration")), Fd("cpu_rt_period", "some", Lf("duration")),
    Opt("cpus", Lf("cpus")), Fd("cpuset", "dflt", Lf("cpuset")), Dft("cap_add", SetOf(Str)), Dft("cap_drop", SetOf(Str)),
    Opt("cgroup", Kw("cgroup")), Opt("cgroup_parent", Str), Opt("command", CommandT), Dft("configs", ConfigsT),
    Opt("container_name", Ident), Opt("credential_spec", Sec("CredentialSpec")),
    Dft("depends_on", Or(Never, SetOf(Ident), MapOf("key.identifier", Sec("Dependency")))), Opt("deploy", Sec("Deploy")),
    Opt("develop", Sec("Develop")), Dft("device_cgroup_rules", SetOf(Lf("cgrouprule"))), Dft("devices", SetOf(Lf("device"))),
    Opt("dns", ItemOrList(Lf("ip"))), Dft("dns_opt", SetOf(Str)), Opt("dns_search", ItemOrList(Lf("hostname"))),
    Opt("domainname", Lf("hostname")), Opt("entrypoint", CommandT),
    Opt("env_file", Or(Path, ListOf(ShortOrLong(Path, Sec("EnvFile"))), Never)), Dft("environment", ListOrMap),
    Dft("expose", SetOf(Lf("expose"))), Opt("extends", Sec("Extends")), Dft("annotations", ListOrMap),
    Dft("external_links", SetOf(Lf("link"))), Dft("extra_hosts", Own("extra_hosts")), Dft("group_add", SetOf(Lf("id"))),
    Opt("healthcheck", Own("healthcheck")), Opt("hostname", Lf("hostname")), Opt("image", Lf("image")), Flag("init"),
    Opt("ipc", Lf("ipc")), Opt("uts", Kw("uts")), Opt("isolation", Str), Dft("labels", ListOrMap), Dft("links", SetOf(Lf("link"))),
    Opt("logging", Sec("Logging")), Opt("network_mode", Lf("netmode")),
    Opt("networks", Or(Never, SetOf(Ident), NullableMapOf("key.identifier", Sec("ServiceNetwork")))),
    Opt("mac_address", Lf("mac")), Opt("mem_limit", Bytes), Opt("mem_reservation", Bytes), Opt("mem_swappiness", Lf("percent")),
    Opt("memswap_limit", Lf("limit.bytes")), Flag("oom_kill_disable"), Opt("oom_score_adj", Lf("oom")), Opt("pid", Str),
    Opt("pids_limit", Lf("limit.u32")), Opt("platform", Lf("platform")), Dft("ports", SetOf(ShortOrLong(Lf("port"), Sec("Port")))),
    Flag("privileged"), Dft("profiles", SetOf(Ident)), Opt("pull_policy", Kw("pull_policy")), Flag("read_only"),
    Opt("restart", Kw("restart")), Opt("runtime", Str), Opt("scale", U64), Dft("secrets", ConfigsT), Dft("security_opt", SetOf(Str)),
    Opt("shm_size", Bytes), Flag("stdin_open"), Fd("stop_grace_period", "some", Lf("duration")), Opt("stop_signal", Str),
    Dft("storage_opt", NullableMapOf("key.map", Lf("value"))), Dft("sysctls", ListOrMap), Opt("tmpfs", ItemOrList(Lf("abspath"))),
    Flag("tty"), Dft("ulimits", UlimitsT), Opt("user", Lf("user")), Opt("userns_mode", Str),
    Dft("volumes", SetOf(ShortOrLong(Lf("volume"), Own("mount")))), Dft("volumes_from", SetOf(Lf("volumesfrom"))),
    Opt("working_dir", Lf("abspath"))>>)
ConfigOrSecretSec == Section("ConfigOrSecret", TRUE, <<
    Req("source", Ident), Opt("target", Path), Opt("uid", Lf("uid")), Opt("gid", Lf("uid")), Opt("mode", U32)>>)
CredentialSpecSec == Section("CredentialSpec", TRUE, <<
    Fd("config", "some", Ident), Fd("file", "some", Path), Fd("registry", "some", Str)>>)
DependencySec == Section("Dependency", FALSE, <<
    Req("condition", Kw("condition")), Flag("restart"), Fd("required", "true", BoolT)>>)
DevelopSec == Section("Develop", FALSE, <<Dft("watch", ListOf(Sec("WatchRule")))>>)
WatchRuleSec == Section("WatchRule", TRUE, <<
    Req("action", Kw("action")), Dft("ignore", ListOf(Path)), Req("path", Path), Opt("target", Lf("abspath"))>>)
EnvFileSec == Section("EnvFile", FALSE, <<Req("path", Path), Fd("required", "true", BoolT)>>)
ExtendsSec == Section("Extends", FALSE, <<Req("service", Ident), Opt("file", Path)>>)
HealthcheckSec == Section("Healthcheck", TRUE, <<
    Fd("test", "some", Own("test")), Fd("interval", "some", Lf("duration")), Fd("timeout", "some", Lf("duration")),
    Fd("retries", "some", U64), Fd("start_period", "some", Lf("duration")), Fd("start_interval", "some", Lf("duration")),
    Fd("disable", "some", BoolT)>>)
LoggingSec == Section("Logging", TRUE, <<Opt("driver", Str), Dft("options", NullableMapOf("key.map", Lf("strnum")))>>)
ServiceNetworkSec == Section("ServiceNetwork", TRUE, <<
    Dft("aliases", SetOf(Lf("hostname"))), Opt("ipv4_address", Lf("ipv4")), Opt("ipv6_address", Lf("ipv6")),
    Dft("link_local_ips", SetOf(Lf("ip"))), Opt("mac_address", Lf("mac")), Dft("driver_opts", DriverOpts), Opt("priority", U64)>>)
PortSec == Section("Port", TRUE, <<
    Opt("name", Str), Req("target", Lf("u16")), Opt("published", Lf("range")), Opt("host_ip", Lf("ip")), Opt("protocol", Kw("protocol")),
    Opt("app_protocol", Str), Opt("mode", Kw("port_mode"))>>)
UlimitSec == Section("Ulimit", TRUE, <<Req("soft", Lf("limit.u64")), Req("hard", Lf("limit.u64"))>>)
BuildSec == Section("Build", TRUE, <<
    Opt("context", Lf("context")), Opt("dockerfile", Path), Opt("dockerfile_inline", Str), Dft("args", ListOrMap),
    Dft("ssh", SetOf(Lf("ssh"))), Dft("cache_from", ListOf(Lf("cache"))), Dft("cache_to", ListOf(Lf("cache"))),
    Dft("additional_contexts", Own("contexts")), Dft("entitlements", ListOf(Str)), Dft("extra_hosts", Own("extra_hosts")),
    Opt("isolation", Str), Flag("privileged"), Dft("labels", ListOrMap), Flag("no_cache"), Flag("pull"), Opt("network", Lf("buildnet")),
    Opt("shm_size", Bytes), Opt("target", Str), Dft("secrets", ConfigsT), Dft("tags", ListOf(Lf("image"))), Dft("ulimits", UlimitsT),
    Dft("platforms", ListOf(Lf("platform")))>>)
BlkioSec == Section("Blkio", FALSE, <<
    Dft("device_read_bps", ListOf(Sec("Bps"))), Dft("device_read_iops", ListOf(Sec("Iops"))), Dft("device_write_bps", ListOf(Sec("Bps"))),
    Dft("device_write_iops", ListOf(Sec("Iops"))), Opt("weight", Lf("weight")), Dft("weight_device", ListOf(Sec("WeightDevice")))>>)
BpsSec == Section("Bps", FALSE, <<Req("path", Lf("abspath")), Req("rate", Bytes)>>)
IopsSec == Section("Iops", FALSE, <<Req("path", Lf("abspath")), Req("rate", U64)>>)
WeightDeviceSec == Section("WeightDevice", FALSE, <<Req("path", Lf("abspath")), Req("weight", Lf("weight"))>>)

MountCommon == <<Req("type", Kw("mount_type")), Req("target", Lf("abspath")), Flag("read_only"), Opt("consistency", Str)>>
MountVolumeSec == Section("MountVolume", TRUE, MountCommon \o <<Opt("source", Ident), Opt("volume", Sec("VolumeOptions"))>>)
MountBindSec == Section("MountBind", TRUE, MountCommon \o <<Req("source", Lf("hostpath")), Opt("bind", Sec("BindOptions"))>>)
MountTmpfsSec == Section("MountTmpfs", TRUE, MountCommon \o <<Opt("tmpfs", Sec("TmpfsOptions"))>>)
MountNpipeSec == Section("MountNpipe", TRUE, MountCommon \o <<Req("source", Lf("hostpath"))>>)
MountClusterSec == Section("MountCluster", TRUE, MountCommon \o <<Req("source", Str)>>)
MountSectionOf(type) ==
    CASE type = "volume" -> "MountVolume" [] type = "bind" -> "MountBind" [] type = "tmpfs" -> "MountTmpfs"
      [] type = "npipe" -> "MountNpipe" [] type = "cluster" -> "MountCluster"
VolumeOptionsSec == Section("VolumeOptions", TRUE, <<Flag("nocopy"), Opt("subpath", Path)>>)
BindOptionsSec == Section("BindOptions", TRUE, <<
    Opt("propagation", Kw("propagation")), Flag("create_host_path"), Opt("selinux", Kw("selinux"))>>)
TmpfsOptionsSec == Section("TmpfsOptions", TRUE, <<Opt("size", Bytes), Opt("mode", U32)>>)

DeploySec == Section("Deploy", TRUE, <<
    Opt("endpoint_mode", Kw("endpoint_mode")), Dft("labels", ListOrMap), Opt("mode", Kw("deploy_mode")), Opt("placement", Sec("Placement")),
    Opt("replicas", U64), Opt("resources", Sec("Resources")), Opt("restart_policy", Sec("RestartPolicy")),
    Opt("rollback_config", Sec("UpdateConfig")), Opt("update_config", Sec("UpdateConfig"))>>)
PlacementSec == Section("Placement", TRUE, <<
    Dft("constraints", ListOf(Str)), Dft("preferences", ListOf(Sec("Preference"))), Opt("max_replicas_per_node", U64)>>)
PreferenceSec == Section("Preference", TRUE, <<Opt("spread", Str)>>)
ResourcesSec == Section("Resources", TRUE, <<Opt("limits", Sec("Limits")), Opt("reservations", Sec("Reservations"))>>)
LimitsSec == Section("Limits", TRUE, <<Opt("cpus", Lf("cpus")), Opt("memory", Bytes), Opt("pids", Lf("limit.u32"))>>)
ReservationsSec == Section("Reservations", TRUE, <<
    Opt("cpus", Lf("cpus")), Opt("memory", Bytes), Dft("devices", ListOf(Sec("ReservedDevice"))),
    Dft("generic_resources", ListOf(Sec("GenericResource")))>>)
ReservedDeviceSec == Section("ReservedDevice", TRUE, <<
    Req("capabilities", SetOf(Kw("capability"))), Opt("driver", Str), Opt("count", Lf("count")), Dft("device_ids", SetOf(Str)),
    Dft("options", ListOrMap)>>)
GenericResourceSec == Section("GenericResource", TRUE, <<Opt("discrete_resource_spec", Sec("DiscreteResource"))>>)
DiscreteResourceSec == Section("DiscreteResource", TRUE, <<Opt("kind", Str), Opt("value", U64)>>)
RestartPolicySec == Section("RestartPolicy", TRUE, <<
    Opt("condition", Kw("restart_condition")), Fd("delay", "some", Lf("duration")), Opt("max_attempts", U64),
    Fd("window", "some", Lf("duration"))>>)
UpdateConfigSec == Section("UpdateConfig", TRUE, <<
    Opt("parallelism", U64), Fd("delay", "some", Lf("duration")), Opt("failure_action", Kw("failure_action")),
    Fd("monitor", "some", Lf("duration")), Opt("max_failure_ratio", U64), Opt("order", Kw("order"))>>)

NetworkSec == Section("Network", TRUE, <<
    Opt("driver", Kw("network_driver")), Dft("driver_opts", DriverOpts), Flag("attachable"), Flag("enable_ipv6"), Opt("ipam", Sec("Ipam")),
    Flag("internal"), Dft("labels", ListOrMap), Opt("name", Str)>>)
IpamSec == Section("Ipam", TRUE, <<
    Opt("driver", Str), Dft("config", ListOf(Sec("IpamConfig"))), Dft("options", MapOf("key.map", Str))>>)
IpamConfigSec == Section("IpamConfig", TRUE, <<
    Opt("subnet", Lf("ipnet")), Opt("ip_range", Lf("ipnet")), Opt("gateway", Lf("ip")),
    Dft("aux_addresses", MapOf("key.hostname", Lf("ip")))>>)
VolumeSec == Section("Volume", TRUE, <<
    Opt("driver", Str), Dft("driver_opts", DriverOpts), Dft("labels", ListOrMap), Opt("name", Str)>>)
ConfigSec == Section("Config", TRUE, <<
    Opt("file", Path), Opt("environment", Str), Opt("content", Str), Dft("labels", ListOrMap)>>)
SecretSec == Section("Secret", TRUE, <<
    Opt("file", Path), Opt("environment", Str), Dft("labels", ListOrMap), Opt("driver", Str), Dft("driver_opts", DriverOpts)>>)

SectionNames == <<"Compose", "Include", "Service", "ConfigOrSecret", "CredentialSpec", "Dependency", "Develop", "WatchRule", "EnvFile",
    "Extends", "Healthcheck", "Logging", "ServiceNetwork", "Port", "Ulimit", "Build", "Blkio", "Bps", "Iops", "WeightDevice",
    "MountVolume", "MountBind", "MountTmpfs", "MountNpipe", "MountCluster", "VolumeOptions", "BindOptions", "TmpfsOptions",
    "Deploy", "Placement", "Preference", "Resources", "Limits", "Reservations", "ReservedDevice", "GenericResource",
    "DiscreteResource", "RestartPolicy", "UpdateConfig", "Network", "Ipam", "IpamConfig", "Volume", "Config", "Secret">>
SectionOf(a) ==
    CASE a = "Compose" -> ComposeSec [] a = "Include" -> IncludeSec [] a = "Service" -> ServiceSec
      [] a = "ConfigOrSecret" -> ConfigOrSecretSec [] a = "CredentialSpec" -> CredentialSpecSec [] a = "Dependency" -> DependencySec
      [] a = "Develop" -> DevelopSec [] a = "WatchRule" -> WatchRuleSec [] a = "EnvFile" -> EnvFileSec [] a = "Extends" -> ExtendsSec
      [] a = "Healthcheck" -> HealthcheckSec [] a = "Logging" -> LoggingSec [] a = "ServiceNetwork" -> ServiceNetworkSec
      [] a = "Port" -> PortSec [] a = "Ulimit" -> UlimitSec [] a = "Build" -> BuildSec [] a = "Blkio" -> BlkioSec [] a = "Bps" -> BpsSec
      [] a = "Iops" -> IopsSec [] a = "WeightDevice" -> WeightDeviceSec [] a = "MountVolume" -> MountVolumeSec
      [] a = "MountBind" -> MountBindSec [] a = "MountTmpfs" -> MountTmpfsSec [] a = "MountNpipe" -> MountNpipeSec
      [] a = "MountCluster" -> MountClusterSec [] a = "VolumeOptions" -> VolumeOptionsSec [] a = "BindOptions" -> BindOptionsSec
      [] a = "TmpfsOptions" -> TmpfsOptionsSec [] a = "Deploy" -> DeploySec [] a = "Placement" -> PlacementSec
      [] a = "Preference" -> PreferenceSec [] a = "Resources" -> ResourcesSec [] a = "Limits" -> LimitsSec
      [] a = "Reservations" -> ReservationsSec [] a = "ReservedDevice" -> ReservedDeviceSec [] a = "GenericResource" -> GenericResourceSec
      [] a = "DiscreteResource" -> DiscreteResourceSec [] a = "RestartPolicy" -> RestartPolicySec [] a = "UpdateConfig" -> UpdateConfigSec
      [] a = "Network" -> NetworkSec [] a = "Ipam" -> IpamSec [] a = "IpamConfig" -> IpamConfigSec [] a = "Volume" -> VolumeSec
      [] a = "Config" -> ConfigSec [] a = "Secret" -> SecretSec

(***************************************************************************)
(* Settings that exclude each other, on a section whose fields are in      *)
(* order.                                                                  *)
(***************************************************************************)
HowMany(x, ks) == Cardinality(KeysOf(x) \cap ks)
Coherent(a, x) ==
    CASE a = "Service" -> HowMany(x, {"network_mode", "networks"}) <= 1
      [] a = "Build" -> HowMany(x, {"dockerfile", "dockerfile_inline"}) <= 1
      [] a = "CredentialSpec" -> HowMany(x, {"config", "file", "registry"}) = 1
      [] a = "Config" -> HowMany(x, {"file", "environment", "content"}) = 1
      [] a = "Secret" -> HowMany(x, {"file", "environment"}) = 1
      [] OTHER -> TRUE

(* A list item "key=value" as an entry; only the key when there is no separator. *)
SplitItem(s, seps) ==
    LET cs == Chars(s)
        at == {i \in 1..Len(cs) : cs[i] \in seps}
    IN IF at = {} THEN [key |-> s, value |-> None]
       ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
            IN [key |-> Join(Before(cs, i)), value |-> Some(Join(After(cs, i)))]
\* Later entries for a key replace earlier ones, in their place.
PutEntry(entries, x) ==
    IF \E i \in 1..Len(entries) : entries[i].k = x.k
    THEN Map(LAMBDA y : IF y.k = x.k THEN x ELSE y, entries) ELSE Append(entries, x)
EntriesOf(items, seps) ==
    FoldLeft(LAMBDA acc, it : LET p == SplitItem(it.v, seps)
                              IN PutEntry(acc, Key(p.key, IF IsNone(p.value) \/ p.value = Some("") THEN Nil ELSE Txt(p.value[1]))),
             <<>>, items)
ValidKeys(kind, entries) == \A i \in 1..Len(entries) : Is(kind, Chars(entries[i].k))
AllText(items) == \A i \in 1..Len(items) : IsText(items[i])
\* (A list is a set: an item repeated counts the first time only.)
AsEntries(x, seps) == IF IsList(x) THEN (IF AllText(x.c) THEN Some(EntriesOf(Deduplicated(x.c), seps)) ELSE None)
                      ELSE IF IsMap(x) THEN Some(x.c) ELSE None

CanonHosts(x) ==
    LET es == AsEntries(x, {"=", ":"})
        host(y) == IF ~IsText(y) THEN None ELSE ParseIp(StripBrackets(Chars(y.v)))
    IN IF IsNone(es) THEN None
       ELSE IF ValidKeys("key.hostname", es[1]) /\ \A i \in 1..Len(es[1]) : IsSome(host(es[1][i]))
       THEN Some(Dict(Map(LAMBDA y : Key(y.k, Txt(ShowIp(host(y)[1]))), es[1]))) ELSE None
\* (Without a value: the default context, the working directory.)
CanonContexts(x) ==
    LET es == AsEntries(x, {"="})
        context(y) == IF y.t = "z" THEN Txt(".") ELSE Txt(y.v)
    IN IF IsNone(es) THEN None
       ELSE IF ValidKeys("key.map", es[1]) /\ \A i \in 1..Len(es[1]) : es[1][i].t \in {"z", "b", "i", "f", "s"}
       THEN Some(Dict(Map(LAMBDA y : Key(y.k, context(y)), es[1]))) ELSE None
\* A health test: shell text, or a list beginning with its kind.
TestNone == Lst(<<Txt("NONE")>>)
CanonTest(x) ==
    IF IsText(x) THEN Some(x)
    ELSE IF ~IsList(x) THEN None
    ELSE IF Len(x.c) = 0 THEN None
    ELSE IF ~AllText(x.c) THEN None
    ELSE CASE x.c[1].v = "CMD" -> Some(Lst(x.c))
           [] x.c[1].v = "CMD-SHELL" -> IF Len(x.c) = 2 THEN Some(x.c[2]) ELSE None
           [] x.c[1].v = "NONE" -> IF Len(x.c) = 1 THEN Some(TestNone) ELSE None
           [] OTHER -> None

(***************************************************************************)
(* Whether two canonical trees say the same.  The order of a mapping, and  *)
(* of a list which is a set, says nothing; that of a list does.            *)
(***************************************************************************)
\* Where the order of extensions matters: what is kept in sets.
Kept == {"Port", "MountVolume", "MountBind", "MountTmpfs", "MountNpipe", "MountCluster", "VolumeOptions", "BindOptions", "TmpfsOptions"}
RECURSIVE Equal(_, _, _), EqualAny(_, _), EqualSections(_, _, _)
SameKeys(x, y) == KeysOf(x) = KeysOf(y) /\ Len(x.c) = Len(y.c)
EqualAny(x, y) ==
    CASE x.t # y.t -> FALSE
      [] x.t = "l" -> Len(x.c) = Len(y.c) /\ \A i \in 1..Len(x.c) : EqualAny(x.c[i], y.c[i])
      [] x.t = "m" -> SameKeys(x, y) /\ \A i \in 1..Len(x.c) : EqualAny(x.c[i], Entry(y, x.c[i].k))
      [] OTHER -> x.v = y.v
Equal(ty, x, y) ==
    CASE ty.g \in {"leaf", "kw"} -> EqualAny(x, y)
      [] ty.g = "list" -> Len(x.c) = Len(y.c) /\ \A i \in 1..Len(x.c) : Equal(ty.s[1], x.c[i], y.c[i])
      [] ty.g = "set" -> /\ Len(x.c) = Len(y.c)
                         /\ \A i \in 1..Len(x.c) : \E j \in 1..Len(y.c) : Equal(ty.s[1], x.c[i], y.c[j])
      [] ty.g \in {"map", "nmap"} ->
            /\ SameKeys(x, y)
            /\ \A i \in 1..Len(x.c) : LET z == Entry(y, x.c[i].k)
                                      IN IF x.c[i].t = "z" \/ z.t = "z" THEN x.c[i].t = z.t ELSE Equal(ty.s[1], x.c[i], z)
      [] ty.g = "or" -> LET shape(n) == IF IsList(n) THEN 2 ELSE IF n.t \in {"m", "o"} THEN 3 ELSE 1
                        IN shape(x) = shape(y) /\ Equal(ty.s[shape(x)], x, y)
      [] ty.g = "sec" -> EqualSections(ty.a, x, y)
      [] ty.g = "own" ->
            CASE x.t # y.t -> FALSE
              [] ty.a = "network" -> EqualSections("Network", x, y)
              [] ty.a = "volume" -> EqualSections("Volume", x, y)
              [] ty.a = "config" -> EqualSections("Config", x, y)
              [] ty.a = "secret" -> EqualSections("Secret", x, y)
              [] ty.a = "healthcheck" -> EqualSections("Healthcheck", x, y)
              [] ty.a = "mount" -> Entry(x, "type").v = Entry(y, "type").v /\ EqualSections(MountSectionOf(Entry(x, "type").v), x, y)
              [] OTHER -> EqualAny(x, y)
EqualSections(a, x, y) ==
    LET by == SectionOf(a).by
        \* (What excludes the rest of a section is no field of it.)
        known(n) == n.k \in DOMAIN by
        xs == SelectSeq(x.c, LAMBDA n : ~known(n))
        ys == SelectSeq(y.c, LAMBDA n : ~known(n))
    IN /\ SameKeys(x, y)
       /\ \A i \in 1..Len(x.c) : known(x.c[i]) =>
            LET z == Entry(y, x.c[i].k) IN IF x.c[i].t = "z" \/ z.t = "z" THEN x.c[i].t = z.t ELSE Equal(by[x.c[i].k].ty, x.c[i], z)
       /\ IF a \in Kept THEN \A i \in 1..Len(xs) : xs[i].k = ys[i].k /\ EqualAny(xs[i], ys[i])
          ELSE \A i \in 1..Len(xs) : EqualAny(xs[i], Entry(y, xs[i].k))
RECURSIVE DistinctOnes(_, _, _)
\* Of those which say the same, the first.
DistinctOnes(ty, kept, more) ==
    IF more = <<>> THEN kept
    ELSE DistinctOnes(ty, IF \E i \in 1..Len(kept) : Equal(ty, kept[i], more[1]) THEN kept ELSE Append(kept, more[1]), Tail(more))

RECURSIVE Canon(_, _)
CanonFields(sec, x) ==
    LET field(y) == sec.by[y.k]
        one(y) ==
            IF y.k \notin DOMAIN sec.by
            THEN (IF ~sec.ext THEN Some(None) ELSE IF Is("key.extension", Chars(y.k)) THEN Some(Some(y)) ELSE None)
            ELSE LET f == field(y)
                 IN IF f.m = "opt" /\ y.t = "z" THEN Some(None)
                    ELSE LET r == Canon(f.ty, y)
                         IN IF IsNone(r) THEN None
                            ELSE IF \/ f.m = "dflt" /\ (EmptyCollection(r[1]) \/ (f.ty = BoolT /\ r[1].v = "false")
                                                         \/ (f.ty = Lf("cpuset") /\ r[1].v = ""))
                                    \/ f.m = "true" /\ r[1].v = "true"
                            THEN Some(None) ELSE Some(Some(Key(y.k, r[1])))
        rs == Map(one, x.c)
    IN IF \/ \E i \in 1..Len(rs) : IsNone(rs[i])
          \/ \E i \in 1..Len(sec.fs) : sec.fs[i].m = "req" /\ ~HasKey(x, sec.fs[i].f)
       THEN None
       ELSE Some(Node("o", "", FoldLeft(LAMBDA acc, r : acc \o r[1], <<>>, rs)))
CanonSection(a, x) ==
    IF ~IsMap(x) THEN None
    ELSE LET r == CanonFields(SectionOf(a), x)
         IN IF IsNone(r) THEN None ELSE IF Coherent(a, r[1]) THEN r ELSE None

CanonMount(x) ==
    IF ~IsMap(x) THEN None
    ELSE IF ~HasKey(x, "type") THEN None
    ELSE IF IsNone(KeywordLeaf("mount_type", Entry(x, "type"))) THEN None
    ELSE CanonSection(MountSectionOf(Entry(x, "type").v), x)
\* A disabled healthcheck has no other setting.
CanonHealthcheck(x) ==
    LET r == CanonSection("Healthcheck", x)
        none == HasKey(r[1], "test") /\ Entry(r[1], "test").c = TestNone.c
        disabled == HasKey(r[1], "disable") /\ IsTrue(Entry(r[1], "disable"))
        rest == Without(r[1], "disable")
    IN IF IsNone(r) THEN None
       ELSE IF none /\ disabled THEN None
       ELSE IF none THEN (IF Len(rest.c) = 1 THEN Some(Node("o", "", <<Key("disable", Bool(TRUE))>>)) ELSE None)
       ELSE IF disabled THEN (IF Len(rest.c) = 0 THEN Some(Node("o", "", <<Key("disable", Bool(TRUE))>>)) ELSE None)
       ELSE Some(rest)
\* An external resource has no setting but its name.
CanonResource(a, x) ==
    IF ~IsMap(x) THEN None
    ELSE IF ~HasKey(x, "external") THEN CanonSection(a, x)
    ELSE IF Entry(x, "external").t # "b" THEN None
    ELSE IF ~IsTrue(Entry(x, "external")) THEN CanonSection(a, Without(x, "external"))
    ELSE IF KeysOf(x) \subseteq {"external", "name"} /\ (HasKey(x, "name") => IsText(Entry(x, "name")))
    THEN Some(Node("o", "", x.c)) ELSE None

CanonAll(ty, items) ==
    LET rs == Map(LAMBDA y : Canon(ty, y), items)
    IN IF \E i \in 1..Len(rs) : IsNone(rs[i]) THEN None ELSE Some(Map(LAMBDA r : r[1], rs))
Canon(ty, y) ==
    LET x == Bare(y)
    IN CASE ty.g = "leaf" -> LeafOf(ty.a, x)
         [] ty.g = "kw" -> KeywordLeaf(ty.a, x)
         [] ty.g \in {"list", "set"} ->
                IF ~IsList(x) THEN None
                ELSE LET r == CanonAll(ty.s[1], x.c)
                     IN IF IsNone(r) THEN None ELSE Some(Lst(IF ty.g = "set" THEN DistinctOnes(ty.s[1], <<>>, r[1]) ELSE r[1]))
         [] ty.g \in {"map", "nmap"} ->
                IF ~IsMap(x) THEN None
                ELSE IF ~ValidKeys(ty.a, x.c) THEN None
                ELSE LET one(e) == IF ty.g = "nmap" /\ e.t = "z" THEN Some(e)
                                   ELSE LET r == Canon(ty.s[1], e) IN IF IsNone(r) THEN None ELSE Some(Key(e.k, r[1]))
                         rs == Map(one, x.c)
                     IN IF \E i \in 1..Len(rs) : IsNone(rs[i]) THEN None ELSE Some(Dict(Map(LAMBDA r : r[1], rs)))
         [] ty.g = "or" -> Canon(ty.s[IF IsList(x) THEN 2 ELSE IF IsMap(x) THEN 3 ELSE 1], x)
         [] ty.g = "sec" -> CanonSection(ty.a, x)
         [] ty.g = "own" ->
                CASE ty.a = "network" -> CanonResource("Network", x)
                  [] ty.a = "volume" -> CanonResource("Volume", x)
                  [] ty.a = "config" -> CanonResource("Config", x)
                  [] ty.a = "secret" -> CanonResource("Secret", x)
                  [] ty.a = "mount" -> CanonMount(x)
                  [] ty.a = "healthcheck" -> CanonHealthcheck(x)
                  [] ty.a = "test" -> CanonTest(x)
                  [] ty.a = "extra_hosts" -> CanonHosts(x)
                  [] ty.a = "contexts" -> CanonContexts(x)

Document == Sec("Compose")

(***************************************************************************)
(* Things which documents can say somewhere:                               *)
(*   null    an explicit null where a list, a mapping or a section has to  *)
(*           be; it is left open whether it is refused or stands for an    *)
(*           empty one (serde_yaml answers differently for text and trees) *)
(*   big     a number of CPUs past the integers that a float can tell      *)
(*           apart                                                         *)
(*   choice  an empty mapping where a list would do as well; it is the     *)
(*           same setting as an empty list, or none                        *)
(***************************************************************************)
RECURSIVE Somewhere(_, _, _)
Within(what, a, x) ==
    LET sec == SectionOf(a)
    IN \E i \in 1..Len(x.c) :
        /\ x.c[i].k \in DOMAIN sec.by
        /\ ~(sec.by[x.c[i].k].m = "opt" /\ x.c[i].t = "z")
        /\ Somewhere(what, sec.by[x.c[i].k].ty, x.c[i])
Somewhere(what, ty, x) ==
    LET null == what = "null" /\ x.t = "z"
    IN CASE ty.g \in {"list", "set"} -> null \/ (IsList(x) /\ \E i \in 1..Len(x.c) : Somewhere(what, ty.s[1], x.c[i]))
         [] ty.g = "map" -> null \/ (IsMap(x) /\ \E i \in 1..Len(x.c) : Somewhere(what, ty.s[1], x.c[i]))
         [] ty.g = "nmap" -> null \/ (IsMap(x) /\ \E i \in 1..Len(x.c) : x.c[i].t # "z" /\ Somewhere(what, ty.s[1], x.c[i]))
         [] ty.g = "or" -> \/ null /\ ty.s[1].g # "leaf"
                           \/ what = "choice" /\ IsMap(x) /\ Len(x.c) = 0 /\ ty.s[2].g = "set"
                           \/ IsList(x) /\ Somewhere(what, ty.s[2], x)
                           \/ IsMap(x) /\ Somewhere(what, ty.s[3], x)
         [] ty.g = "sec" -> null \/ (IsMap(x) /\ Within(what, ty.a, x))
         [] ty.g = "own" ->
                \/ null
                \/ IsMap(x) /\
                    CASE ty.a = "network" -> Within(what, "Network", x)
                      [] ty.a = "volume" -> Within(what, "Volume", x)
                      [] ty.a = "config" -> Within(what, "Config", x)
                      [] ty.a = "secret" -> Within(what, "Secret", x)
                      [] ty.a = "healthcheck" -> Within(what, "Healthcheck", x)
                      [] ty.a = "mount" -> /\ HasKey(x, "type") /\ IsSome(KeywordLeaf("mount_type", Entry(x, "type")))
                                           /\ Within(what, MountSectionOf(Entry(x, "type").v), x)
                      [] OTHER -> FALSE
         [] ty.g = "leaf" -> what = "big" /\ ty.a = "cpus" /\ x.t = "i" /\ Len(Chars(x.v)) > 15
         [] OTHER -> FALSE
\* What the specification has an opinion on.
Settled(doc) == ~Somewhere("null", Document, doc) /\ ~Somewhere("big", Document, doc)
=============================================================================
