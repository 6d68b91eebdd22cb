------------------------------- MODULE Leaves -------------------------------
(***************************************************************************)
(* The scalar types of the schema: which scalar nodes each takes, and the  *)
(* node it is written back as (None when it does not take it).             *)
(***************************************************************************)
EXTENDS Tree, Volumes, Ports, Scalars

WholeNumber(x, max) == IF x.t = "i" THEN (IF All(Chars(x.v), Digit) THEN ParseU(Chars(x.v), max) ELSE None) ELSE None
Whole(x, max) == LET n == WholeNumber(x, max) IN IF IsNone(n) THEN None ELSE Some(Num(Join(n[1])))
InRange(x, min, max) ==
    LET n == WholeNumber(x, Chars(max))
    IN IF IsNone(n) THEN None ELSE IF BigLeq(Chars(min), n[1]) THEN Some(Num(Join(n[1]))) ELSE None

(***************************************************************************)
(* Non-negative decimals d+, d+.d*, .d+ without exponent, as CPU counts.   *)
(***************************************************************************)
RECURSIVE StripTrailing(_)
StripTrailing(d) == IF Len(d) > 0 /\ d[Len(d)] = "0" THEN StripTrailing(DropLast(d, 1)) ELSE d
CanonDecimal(cs) ==
    LET body == IF Len(cs) > 1 /\ cs[1] = "+" THEN Tail(cs) ELSE cs
        i == First(body, ".")
        whole == IF i = 0 THEN body ELSE Before(body, i)
        part == IF i = 0 THEN <<>> ELSE After(body, i)
    IN IF Len(whole) + Len(part) = 0 \/ ~All(whole, Digit) \/ ~All(part, Digit) THEN None
       ELSE LET w == IF Len(whole) = 0 THEN "0" ELSE Join(StripZeros(whole))
                p == StripTrailing(part)
            IN Some(w \o "." \o (IF Len(p) = 0 THEN "0" ELSE Join(p)))
EvalCpuCount(x) ==
    IF x.t \in {"i", "f", "s"}
    THEN LET d == CanonDecimal(Chars(x.v)) IN IF IsNone(d) THEN None ELSE Some(Flo(d[1]))
    ELSE None

(***************************************************************************)
(* Networks: an address and a prefix length.                               *)
(***************************************************************************)
EvalIpNet(s) ==
    LET cs == Chars(s)
        i == First(cs, "/")
        a == IF i = 0 THEN None ELSE ParseIp(Before(cs, i))
        p == IF i = 0 THEN None ELSE IF All(After(cs, i), Digit) THEN ParseU(After(cs, i), U8Max) ELSE None
    IN IF IsNone(a) \/ IsNone(p) THEN [ok |-> FALSE]
       ELSE IF SmallVal(p[1]) <= (IF Len(a[1]) = 4 THEN 32 ELSE 128)
       THEN [ok |-> TRUE, text |-> ShowIp(a[1]) \o "/" \o Join(p[1])] ELSE [ok |-> FALSE]
EvalIp4(s) == LET a == ParseV4(Chars(s)) IN IF IsNone(a) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, text |-> ShowV4(a[1])]
EvalIp6(s) == LET a == ParseV6(Chars(s)) IN IF IsNone(a) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, text |-> ShowV6(a[1])]

(***************************************************************************)
(* Build contexts: a URL without a path gets one; everything else is kept. *)
(***************************************************************************)
EvalContext(s) == [ok |-> TRUE, text |-> s]

TextOf(r) == IF r.ok THEN Some(Txt(r.text)) ELSE None
YamlOf(r) == IF r.ok THEN Some(Node(r.yaml.t, r.yaml.v, <<>>)) ELSE None

TextLeaves == {"name", "identifier", "hostname", "ip", "ipv4", "ipv6", "ipnet", "mac", "image", "platform", "abspath",
               "hostpath", "link", "volumesfrom", "device", "cgrouprule", "netmode", "ipc", "ssh", "cache", "context",
               "buildnet", "cpuset", "volume", "user"}
EvalTextLeaf(a, s) ==
    CASE a = "name" -> EvalKey("key.project", s)
      [] a = "identifier" -> EvalKey("key.identifier", s)
      [] a = "hostname" -> EvalKey("key.hostname", s)
      [] a = "ip" -> EvalIp(s)
      [] a = "ipv4" -> EvalIp4(s)
      [] a = "ipv6" -> EvalIp6(s)
      [] a = "ipnet" -> EvalIpNet(s)
      [] a = "mac" -> EvalMac(s)
      [] a = "image" -> EvalImageParse(s)
      [] a = "platform" -> EvalPlatform(s)
      [] a = "abspath" -> EvalPath("abspath.parse", s)
      [] a = "hostpath" -> EvalPath("hostpath.parse", s)
      [] a = "link" -> EvalLink(s)
      [] a = "volumesfrom" -> EvalVolumesFrom(s)
      [] a = "device" -> EvalDevice(s)
      [] a = "cgrouprule" -> EvalCgroupRule(s)
      [] a = "netmode" -> EvalNetworkMode(s)
      [] a = "ipc" -> EvalIpc(s)
      [] a = "ssh" -> EvalSshAuth(s)
      [] a = "cache" -> EvalCache(s)
      [] a = "context" -> EvalContext(s)
      [] a = "buildnet" -> EvalBuildNetwork(s)
      [] a = "cpuset" -> EvalCpus(s)
      [] a = "volume" -> EvalShortVolume(s)
      [] a = "user" -> EvalUser(s)

LimitLeaf(x, kind) ==
    IF x.t = "i" THEN (IF x.v = "-1" THEN Some(x)
                       ELSE IF kind = "limit.bytes"
                       THEN (IF IsSome(WholeNumber(x, U64Max)) THEN Some(Txt(x.v \o "b")) ELSE None)
                       ELSE Whole(x, IF kind = "limit.u32" THEN U32Max ELSE U64Max))
    ELSE IF x.t = "s" /\ (kind = "limit.bytes" \/ x.v = "-1")
    THEN LET r == EvalLimit(kind, x.v)
         IN IF ~r.ok THEN None ELSE Some(IF r.unlimited THEN Num("-1") ELSE Txt(r.text))
    ELSE None

LeafOf(a, x) ==
    CASE a = "any" -> Some(x)
      [] a = "never" -> None
      [] a \in {"str", "path"} -> IF IsText(x) THEN Some(x) ELSE None
      [] a = "bool" -> IF x.t = "b" THEN Some(x) ELSE None
      [] a = "u64" -> Whole(x, U64Max)
      [] a = "u32" -> Whole(x, U32Max)
      [] a = "u16" -> Whole(x, U16Max)
      [] a = "percent" -> InRange(x, "0", "100")
      [] a = "weight" -> InRange(x, "10", "1000")
      [] a = "oom" -> IF x.t = "i" /\ StartsWith(Chars(x.v), <<"-">>)
                      THEN (IF IsSome(InRange(Num(Join(Tail(Chars(x.v)))), "1", "1000")) THEN Some(x) ELSE None)
                      ELSE InRange(x, "0", "1000")
      [] a = "value" -> IF x.t \in {"b", "i", "f", "s"} THEN Some(x) ELSE None
      [] a = "strnum" -> IF x.t \in {"i", "f", "s"} THEN Some(x) ELSE None
      [] a = "micros" -> Whole(x, U64Max)
      [] a = "duration" ->
            IF x.t = "i" THEN LET n == WholeNumber(x, U64Max) IN IF IsNone(n) THEN None ELSE Some(Txt(ShowDuration(n[1])))
            ELSE IF x.t = "s" THEN TextOf(EvalDuration(x.v)) ELSE None
      [] a = "cpus" -> EvalCpuCount(x)
      [] a = "bytes" ->
            IF x.t = "i" THEN LET n == WholeNumber(x, U64Max) IN IF IsNone(n) THEN None ELSE Some(Txt(Join(n[1]) \o "b"))
            ELSE IF x.t = "s" THEN TextOf(EvalBytes(x.v)) ELSE None
      [] a \in LimitKinds -> LimitLeaf(x, a)
      [] a = "uid" ->
            IF x.t = "s" THEN LET n == ParseU(Chars(x.v), U32Max) IN IF IsNone(n) THEN None ELSE Some(Txt(Join(n[1])))
            ELSE None
      [] a = "id" ->
            IF x.t = "i" THEN Whole(x, U32Max)
            ELSE IF x.t = "s" THEN LET r == EvalIdOrName(x.v)
                                   IN IF ~r.ok THEN None ELSE Some(IF r.kind = "id" THEN Num(r.text) ELSE Txt(r.text))
            ELSE None
      [] a = "count" ->
            IF x.t = "i" THEN Whole(x, U64Max)
            ELSE IF x.t # "s" THEN None
            ELSE IF x.v = "all" THEN Some(x)
            ELSE LET n == ParseU(Chars(x.v), U64Max) IN IF IsNone(n) THEN None ELSE Some(Num(Join(n[1])))
      [] a \in {"range", "expose", "port"} ->
            IF x.t = "i" /\ IsNone(WholeNumber(x, U16Max)) THEN None
            ELSE IF x.t \in {"i", "s"}
            THEN YamlOf(CASE a = "range" -> EvalRange(x.v) [] a = "expose" -> EvalExpose(x.v) [] a = "port" -> EvalShortPort(x.v))
            ELSE None
      [] a \in TextLeaves -> IF IsText(x) THEN TextOf(EvalTextLeaf(a, x.v)) ELSE None

(***************************************************************************)
(* Keywords.  Closed sets take these words only; open sets any text.       *)
(***************************************************************************)
Words(set) ==
    CASE set = "cgroup" -> <<"host", "private">>
      [] set = "condition" -> <<"service_started", "service_healthy", "service_completed_successfully">>
      [] set = "uts" -> <<"host">>
      [] set = "pull_policy" -> <<"always", "never", "missing", "build">>
      [] set = "restart" -> <<"no", "always", "on-failure", "unless-stopped">>
      [] set = "port_mode" -> <<"host", "ingress">>
      [] set = "deploy_mode" -> <<"global", "replicated">>
      [] set = "restart_condition" -> <<"none", "on-failure", "any">>
      [] set = "failure_action" -> <<"continue", "pause">>
      [] set = "order" -> <<"stop-first", "start-first">>
      [] set = "action" -> <<"rebuild", "sync", "sync+restart">>
      [] set = "propagation" -> <<"private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable">>
      [] set = "selinux" -> <<"z", "Z">>
      [] set = "mount_type" -> <<"volume", "bind", "tmpfs", "npipe", "cluster">>
      [] set = "endpoint_mode" -> <<"vip", "dnsrr">>
      [] set = "network_driver" -> <<"host", "none">>
      [] set = "capability" -> <<"gpu", "tpu">>
      [] set = "protocol" -> <<"tcp", "udp">>
ClosedSets == {"cgroup", "condition", "uts", "pull_policy", "restart", "port_mode", "deploy_mode", "restart_condition",
               "failure_action", "order", "action", "propagation", "selinux", "mount_type"}
\* What a setting that is not given means (none where there is no such meaning).
DefaultWord(set) ==
    CASE set = "condition" -> Some("service_started") [] set = "uts" -> Some("host") [] set = "pull_policy" -> Some("missing")
      [] set = "restart" -> Some("no") [] set = "port_mode" -> Some("ingress") [] set = "deploy_mode" -> Some("replicated")
      [] set = "restart_condition" -> Some("any") [] set = "failure_action" -> Some("pause") [] set = "order" -> Some("stop-first")
      [] set = "propagation" -> Some("rprivate") [] set = "protocol" -> Some("tcp") [] OTHER -> None
EvalKeywordDefault(set) == [default |-> DefaultWord(set)]
OpenSets == {"endpoint_mode", "network_driver", "capability", "protocol"}
KeywordSets == (ClosedSets \ {"mount_type"}) \cup OpenSets
\* Other spellings that are read, and what they are written as.
Aliases(set) == IF set = "pull_policy" THEN <<<<"if_not_present", "missing">>>> ELSE <<>>
EvalKeyword(set, s) ==
    LET words == Words(set)
        al == SelectSeq(Aliases(set), LAMBDA p : p[1] = s)
    IN IF \E i \in 1..Len(words) : words[i] = s THEN [ok |-> TRUE, text |-> s, known |-> TRUE]
       ELSE IF Len(al) > 0 THEN [ok |-> TRUE, text |-> al[1][2], known |-> TRUE]
       ELSE IF set \in OpenSets THEN [ok |-> TRUE, text |-> s, known |-> FALSE]
       ELSE [ok |-> FALSE]
KeywordLeaf(set, x) == IF IsText(x) THEN TextOf(EvalKeyword(set, x.v)) ELSE None
=============================================================================
