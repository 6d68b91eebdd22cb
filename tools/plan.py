"""Which machines and traces decide which property."""


GRAINS = ("fine", "coarse", "ascii", "inner")
INNER = {"volume.parse", "volume.expand", "device.parse", "cgroup.parse", "cache.parse", "duration.parse", "cpus.parse",
         "port.parse", "port.expand", "image.parse", "user.parse", "mac.parse", "volumesfrom.parse", "link.parse"}


def typing(*ops, **kw):
    # One TLC process per language and grain: TLC's string table is global and locked.
    return {"kind": "explore", "module": "Typing", "invariants": ["Emit"],
            "split": [{"Ops": {op}, "Grains": {g}} for op in ops for g in GRAINS
                      if g != "inner" or op in INNER], **kw}


def mistakes(*ops):
    # A well-formed text with a mistake or two in it.
    return machine("Mistakes", split=[{"Languages": {op}} for op in ops])


def machine(module, invariants=(), properties=(), **kw):
    return {"kind": "explore", "module": module, "invariants": [*invariants, "Emit"],
            "properties": list(properties), **kw}


def recorded(area, quick, thorough, runs=8):
    return {"kind": "record", "area": area, "count": {"quick": quick, "thorough": thorough},
            "runs": {"quick": 1, "thorough": runs}}


# The sections of a document, in groups for one TLC process each (or several, for the long ones).
SECTIONS = [
    (["Service"], 4), (["Build"], 3), (["Compose"], 4), (["Deploy", "Include", "Bps", "Extends"], 1),
    (["ServiceNetwork", "Healthcheck", "Develop"], 1), (["Port", "ConfigOrSecret", "Iops"], 1),
    (["CredentialSpec", "Dependency", "WatchRule", "EnvFile", "Logging", "Ulimit", "Blkio"], 1),
    (["WeightDevice", "MountVolume", "MountBind", "MountTmpfs", "MountNpipe"], 1),
    (["MountCluster", "VolumeOptions", "BindOptions", "TmpfsOptions", "Placement"], 1),
    (["Preference", "Resources", "Limits", "Reservations", "ReservedDevice"], 1),
    (["GenericResource", "DiscreteResource", "RestartPolicy", "UpdateConfig"], 1),
    (["Network", "Ipam", "IpamConfig"], 1), (["Volume", "Config", "Secret"], 1),
]


# The sections again, by how long it takes to put everything everywhere in them.
ANYWHERE = [(["Service"], 16), (["Build"], 4), (["Compose", "Include", "Deploy"], 4)] + [
    (names, 2) for names, _ in SECTIONS[3:]]

# Where a mapping may merge others: mappings with keys of the user's, and sections.
MERGING = [("Service",), ("Build",), ("Compose", "Include"), ("services", "environment"), ("labels", "driver_opts", "networks"),
           ("depends_on", "ulimits", "extra_hosts"), ("extension", "item", "nested"), ("ConfigOrSecret", "CredentialSpec", "Dependency"),
           ("Develop", "WatchRule", "EnvFile", "Extends"), ("Healthcheck", "Logging", "ServiceNetwork"), ("Port", "Ulimit", "Blkio"),
           ("Bps", "Iops", "WeightDevice", "MountVolume"), ("MountBind", "MountTmpfs", "MountNpipe", "MountCluster"),
           ("VolumeOptions", "BindOptions", "TmpfsOptions", "Deploy"), ("Placement", "Preference", "Resources", "Limits"),
           ("Reservations", "ReservedDevice", "GenericResource", "DiscreteResource"), ("RestartPolicy", "UpdateConfig", "Network"),
           ("Ipam", "IpamConfig", "Volume"), ("Config", "Secret")]


def sections(op, *only):
    groups = [([n for n in names if not only or n in only], parts) for names, parts in SECTIONS]
    return machine("Sections", ["Fixpoint", "OrderFree"],
                   split=[{"Focus": set(names), "Part": part, "Parts": parts, "Op": op}
                          for names, parts in groups if names for part in range(parts)])


def twice():
    return machine("Twice", split=[{"Focus": set(names), "Part": part, "Parts": parts} for names, parts in SECTIONS for part in range(parts)])


def crowd(op):
    groups = [({"Service"}, 2), ({"Build"}, 1), ({"Compose"}, 4)]
    rest = [name for names, _ in SECTIONS for name in names if {name} not in [names for names, _ in groups]]
    groups += [(set(rest[i::4]), 1) for i in range(4)]
    return machine("Crowd", split=[{"Focus": names, "Op": op, "Part": part, "Parts": parts} for names, parts in groups
                                   for part in range(parts)])


def twins(op):
    # (What stands in no list has no place beside it.)
    groups = [({"Service"}, 4), ({"Build"}, 1), ({"Compose"}, 1), *(({*names}, 1) for names, _ in SECTIONS[3:])]
    if op == "doc.write":
        groups = groups[3:4] + groups[5:-1]
    return machine("Twins", split=[{"Focus": names, "Op": op, "Part": part, "Parts": parts} for names, parts in groups
                                   for part in range(parts)])


RANKED = {"key": ["key.project", "key.identifier", "key.map", "key.extension", "key.hostname", "key.ulimit", "key.user", "key.cacheoption"],
          "image": ["image.parse", "image.name", "image.tag", "image.digest"], "path": ["abspath.parse", "hostpath.parse"],
          "number": ["weight", "score", "percent", "limit", "mac.parse"]}


def ranks(*areas):
    return machine("Ranks", ["Turned", "Transitive"], split=[{"Focus": {kind}} if area == "key" else {"Focus": set(RANKED[area])}
                                                            for area in areas or RANKED for kind in (RANKED[area] if area == "key" else ["all"])])


def made(*hows):
    # All those of these families.
    return machine("Made", ["Settles"], split=[{"Focus": {n for n in MADE if not hows or any((n + ".").startswith(h + ".") for h in hows)}}])


def leaves(*names):
    # Any scalar where these are wanted, handed over by every deserializer there is.
    return machine("LeafTable", split=[{"Focus": {*names[i:i + 8]}} for i in range(0, len(names), 8)])


def documents(op):
    return [
        sections(op),
        machine("Documents", ["Fixpoint", "OrderFree"], split=[{"Lane": lane, "Op": op} for lane in range(8)],
                simulate={"quick": (1, 150), "thorough": (1, 6000)}),
        crowd(op),
    ]


LEAVES = ["name", "identifier", "hostname", "mac", "image", "platform", "abspath", "hostpath", "link", "volumesfrom", "device",
          "cgrouprule", "netmode", "ipc", "ssh", "cache", "context", "buildnet", "cpuset", "volume", "user", "id", "bytes",
          "limit.u32", "limit.u64", "limit.bytes", "range", "expose", "port", "value", "strnum", "count", "cpus", "weight",
          "percent", "oom", "duration", "micros"]

# Every way of making a value in code.
MADE = ["bind.propagation", "bind.selinux", "bytes.b", "bytes.gb", "bytes.kb", "bytes.mb", "cache", "cache.image",
        "cacheoption.image", "capabilities", "cgrouprule", "command.list", "command.text", "config.content",
        "config.environment", "config.file", "count", "count.all", "cpus.float", "cpus.int", "depends", "device",
        "envfile.config", "envfile.list", "envfile.text", "expose", "expose.one", "external.config", "external.network",
        "external.secret", "external.volume", "healthcheck.default", "healthcheck.disable", "healthcheck.list",
        "healthcheck.text", "id", "include", "ipc.service", "item.list", "item.one", "limit.bytes", "limit.bytes.none",
        "limit.u32", "limit.u32.none", "limit.u64", "limit.u64.none", "link", "link.alias", "longport.one", "mac",
        "mount.bind", "mount.cluster", "mount.npipe", "mount.tmpfs", "mount.volume", "netmode.container", "netmode.service",
        "network.default", "network.mode", "networks", "oom", "percent", "port", "port.one", "port.range", "range.one",
        "range.pair", "secret.environment", "secret.file", "short.limit", "short.path", "ssh", "ssh.default", "ulimit",
        "ulimit.number", "user.one", "user.pair", "volume", "volume.default", "volume.target", "volumesfrom", "weight"]

# Every language of texts.
TEXTS = ["key.project", "key.identifier", "key.map", "key.extension", "key.hostname", "key.ulimit", "key.user", "key.cacheoption",
         "image.parse", "range.parse", "expose.parse", "ranges.parse", "port.parse", "port.expand", "source.parse", "volume.parse",
         "volume.expand", "duration.parse", "bytes.parse", "limit.u32", "limit.u64", "limit.bytes", "cpus.parse", "id.parse", "user.parse",
         "perms.parse", "device.parse", "cgroup.parse", "netmode.parse", "ipc.parse", "link.parse", "volumesfrom.parse", "mac.parse",
         "ssh.parse", "buildnet.parse", "cache.parse", "context.path", "platform.parse", "abspath.parse", "hostpath.parse", "value.parse",
         "value.text"]


PLAN = {
    "P01": {"stages": documents("doc.roundtrip")},
    "P02": {"stages": [*documents("doc.write"), twins("doc.write")]},
    "P03": {"stages": [*documents("doc.accept"), leaves(*LEAVES)]},
    "P04": {"stages": [
        machine("Exclusive", split=[{"Groups": {g}} for g in (
            "Config", "Secret", "Service", "Build", "CredentialSpec", "Network", "Volume", "Healthcheck",
            "MountVolume", "MountBind", "MountTmpfs")]),
    ]},
    "P05": {"stages": documents("doc.order")},
    "P06": {"stages": [
        ranks("key"),
        leaves("name", "identifier", "hostname"),
        typing("key.project", "key.identifier", "key.map", "key.extension", "key.hostname", "key.ulimit", "key.user",
               "key.cacheoption"),
        mistakes("key.project", "key.identifier", "key.map", "key.extension", "key.hostname", "key.ulimit", "key.user",
                 "key.cacheoption"),
        recorded("keys", 3000, 8000),
    ]},
    "P07": {"stages": [
        ranks("image"),
        leaves("image"),
        typing("image.parse", "image.name", "image.tag", "image.digest"),
        mistakes("image.parse", "image.name", "image.tag", "image.digest"),
        recorded("image-parse", 2000, 5000),
    ]},
    "P08": {"stages": [
        machine("ImageEdits", ["WellFormed", "NeverBoth", "TextDenotesReference"], ["Frame"]),
        machine("ImageAmbiguous"),
        recorded("image-edits", 1000, 5000),
    ]},
    "P09": {"stages": [
        made("range", "port.range", "expose"),
        leaves("range"),
        typing("range.parse"),
        mistakes("range.parse"),
        machine("PortTable", ["Forward"]),
        recorded("ranges", 2000, 8000),
    ]},
    "P10": {"stages": [
        made("port", "expose"),
        leaves("range", "expose", "port"),
        typing("expose.parse", "ranges.parse", "port.parse"),
        mistakes("expose.parse", "ranges.parse", "port.parse"),
        machine("PortTable", ["Forward"]),
        recorded("ports", 1500, 8000),
    ]},
    "P11": {"stages": [
        made("port", "longport"),
        typing("port.expand"),
        mistakes("port.expand"),
        machine("PortTable", ["ShortenedExpands"]),
        machine("PortEdits", ["SameLength", "TextDenotes"], ["Frame"]),
        recorded("port-forms", 1500, 8000),
    ]},
    "P17": {"stages": [
        leaves("duration", "micros"),
        typing("duration.parse"),
        mistakes("duration.parse"),
        machine("ScalarTable", ["ReadsBack"]),
        recorded("durations", 2500, 8000),
    ]},
    "P18": {"stages": [
        made("bytes", "limit"),
        leaves("bytes", "limit.u32", "limit.u64", "limit.bytes"),
        typing("bytes.parse", "limit.u32", "limit.u64", "limit.bytes"),
        mistakes("bytes.parse", "limit.u32", "limit.u64", "limit.bytes"),
        recorded("sizes", 2500, 8000),
    ]},
    "P19": {"stages": [
        leaves("cpuset"),
        typing("cpus.parse"),
        mistakes("cpus.parse"),
        machine("Spans"),
        recorded("cpus", 2500, 8000),
    ]},
    "P20": {"stages": [
        made("user", "id"),
        leaves("id", "user"),
        typing("id.parse", "user.parse"),
        mistakes("id.parse", "user.parse"),
        recorded("users", 2500, 8000),
    ]},
    "P21": {"stages": [
        made("device", "cgrouprule"),
        leaves("device", "cgrouprule"),
        typing("perms.parse", "device.parse", "cgroup.parse"),
        mistakes("perms.parse", "device.parse", "cgroup.parse"),
        recorded("devices", 2500, 8000),
    ]},
    "P22": {"stages": [
        made("netmode", "ipc", "link", "volumesfrom", "mac", "ssh", "cache", "cacheoption"),
        leaves("netmode", "ipc", "link", "volumesfrom", "mac", "ssh", "cache", "context", "buildnet"),
        typing("netmode.parse", "ipc.parse", "link.parse", "volumesfrom.parse", "mac.parse", "ssh.parse", "buildnet.parse",
               "cache.parse", "context.path"),
        mistakes("netmode.parse", "ipc.parse", "link.parse", "volumesfrom.parse", "mac.parse", "ssh.parse", "buildnet.parse",
                 "cache.parse", "context.path"),
        machine("ScalarTable", ["ReadsBack"]),
        recorded("refs", 3000, 8000),
    ]},
    "P23": {"stages": [
        leaves("platform"),
        machine("Platforms", ["Supported"]),
        typing("platform.parse"),
        mistakes("platform.parse"),
        recorded("platforms", 1500, 8000),
    ]},
    "P12": {"stages": [
        made("volume"),
        leaves("volume"),
        typing("source.parse", "volume.parse"),
        mistakes("source.parse", "volume.parse"),
        recorded("volumes", 2500, 8000),
    ]},
    "P13": {"stages": [
        made("mount", "volume", "bind"),
        typing("volume.expand"),
        mistakes("volume.expand"),
        machine("MountTable", ["ShortenedExpands"]),
        recorded("volume-forms", 1500, 8000),
    ]},
    "P24": {"stages": [
        ranks("path"),
        made("volume", "mount"),
        leaves("abspath", "hostpath"),
        typing("abspath.parse", "hostpath.parse"),
        mistakes("abspath.parse", "hostpath.parse"),
        machine("PathEdits", ["StaysWhatItIs"], ["BackAgain"]),
        recorded("paths", 1500, 8000),
    ]},
    "P16": {"stages": [
        machine("Lists", ["ThereAndBack", "Equivalent"],
                split=[{"Focus": f, "How": h} for f in ("labels", "hosts", "contexts") for h in ("typed", "words", "map")]),
    ]},
    "P25": {"stages": [
        machine("Partial", split=[{"Focus": set(names), "Op": "empty.of"} for names in (
            ("Network", "Ipam"), ("IpamConfig", "Volume", "VolumeOptions", "BindOptions", "TmpfsOptions"),
            ("ServiceNetwork", "Resources", "Limits", "Reservations"), ("ReservedDevice", "GenericResource", "DiscreteResource"),
            ("Deploy",), ("Placement", "Preference", "RestartPolicy", "UpdateConfig"), ("Blkio", "Logging", "Healthcheck"), ("Build",))]),
        machine("Lists", ["ThereAndBack"], split=[{"Focus": "labels", "How": h} for h in ("words", "map")]),
        sections("doc.write", "Network", "Ipam", "IpamConfig", "Volume", "VolumeOptions", "BindOptions", "TmpfsOptions", "ServiceNetwork",
                 "Resources", "Limits", "Reservations", "ReservedDevice", "GenericResource", "DiscreteResource", "Deploy", "Placement",
                 "Preference", "RestartPolicy", "UpdateConfig", "Blkio", "Logging", "Healthcheck", "Build", "Service", "MountVolume",
                 "MountBind", "MountTmpfs"),
        typing("cpus.parse"),
    ]},
    "P30": {"stages": [
        made("short", "ulimit", "include", "envfile", "config", "secret", "longport", "item"),
        machine("Partial", ["Consistent"], split=[{"Focus": set(names), "Op": "forms.of"} for names in (
            ("Include", "EnvFile", "Ulimit"), ("ConfigOrSecret",), ("Build",))]),
        machine("ShortTable", ["ThereAndBack"], split=[{"Focus": set(names)} for names in (
            ("Include", "Build", "ConfigOrSecret", "EnvFile", "Ulimit"), ("DependsOn",), ("Networks",), ("items", "envfile"))]),
        sections("doc.write", "Include", "ConfigOrSecret", "EnvFile", "Ulimit", "Dependency", "ServiceNetwork", "Port", "Build", "Service",
                 "Compose"),
        typing("port.expand", "volume.expand"),
        machine("PortTable", ["ShortenedExpands"]),
        machine("MountTable", ["ShortenedExpands"]),
    ]},
    "P31": {"stages": [twins("doc.equal"), twins("doc.write")]},
    "P32": {"stages": [made()]},
    "P33": {"stages": documents("doc.json")},
    "P34": {"stages": [ranks()]},
    "P35": {"stages": [twice()]},
    "P26": {"stages": [
        made("capabilities", "network.mode", "bind", "ipc", "netmode"),
        machine("Keywords", ["WrittenIsRead"],
                split=[{"Focus": set(f)} for f in (("cgroup", "uts", "endpoint_mode"), ("condition", "selinux"), ("pull_policy", "capability"),
                                                   ("restart", "protocol"), ("port_mode", "network_driver", "order"),
                                                   ("deploy_mode", "failure_action"), ("restart_condition", "action"), ("propagation",))]),
        typing("netmode.parse", "ipc.parse", "buildnet.parse"),
        mistakes("netmode.parse", "ipc.parse", "buildnet.parse"),
        sections("doc.write", "Service", "Port", "UpdateConfig", "RestartPolicy", "WatchRule", "Dependency", "ReservedDevice",
                 "MountVolume", "MountBind", "MountTmpfs", "MountNpipe", "MountCluster", "BindOptions", "Deploy", "Network",
                 "Healthcheck"),
    ]},
    "P27": {"stages": [
        leaves("value", "strnum", "count", "cpus"),
        typing("value.parse", "value.text"),
        mistakes("value.parse", "value.text"),
        machine("NumeralTable", ["Consistent"]),
        recorded("values", 2000, 8000),
    ]},
    "P28": {"stages": [
        machine("Merging", ["Complete", "Unneeded", "OwnWins"], split=[{"Focus": set(places)} for places in MERGING]),
    ]},
    "P29": {"stages": [
        machine("Words", split=[{"Language": op, "Grain": g} for op in TEXTS for g in ("coarse", "inner", "fine")
                                if g != "inner" or op in INNER]),
        machine("Anything", split=[{"Kind": "cpus", "Focus": set(), "Part": 0, "Parts": 1}]),
        machine("Anything", split=[{"Kind": "tree", "Focus": set(names), "Part": p, "Parts": parts}
                                   for names, parts in ANYWHERE for p in range(parts)]),
        machine("Anything", split=[{"Kind": kind, "Focus": set(), "Part": p, "Parts": 8} for kind in ("text", "yaml") for p in range(8)]),
        machine("Anything", split=[{"Kind": kind, "Focus": set(), "Part": p, "Parts": 0} for kind in ("text", "yaml") for p in range(2)],
                simulate={"quick": (10, 14), "thorough": (200, 14)}),
        machine("Documents", split=[{"Lane": lane, "Op": "total.tree"} for lane in range(4)],
                simulate={"quick": (1, 150), "thorough": (1, 6000)}),
        recorded("anything", 4000, 20000),
        recorded("mangled", 4000, 20000),
    ]},
    "P14": {"stages": [
        machine("Compose", ["AllIsAll", "Alone"], ["Monotone"],
                split=[{"Focus": f} for f in ("network", "config", "secret", "all")]),
        recorded("validation", 1500, 6000),
    ]},
    "P15": {"stages": [
        machine("Compose", ["AllIsAll", "Alone"], ["Monotone"], split=[{"Focus": f} for f in ("volume", "all")]),
        recorded("validation", 1500, 6000),
    ]},
}
