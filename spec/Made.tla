-------------------------------- MODULE Made --------------------------------
(***************************************************************************)
(* Values made in code rather than read: every conversion and constructor  *)
(* takes exactly what would be accepted if it were written in a document,  *)
(* and makes the value which would then have been read.                    *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus
VARIABLES how, args
vars == <<how, args>>
T == Tier = "thorough"

Numbers == {"0", "1", "2", "5", "9", "10", "11", "59", "60", "99", "100", "101", "127", "128", "254", "255", "256", "257", "443", "998", "999", "1000", "1001",
            "1023", "1024", "2000", "8080", "32766", "32767", "32768", "65534", "65535", "65536", "2147483647", "2147483648", "4294967294",
            "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615"}
UpTo(max) == {n \in Numbers : BigLeq(Chars(n), Chars(max))}
Negative == {"-1", "-2", "-10", "-127", "-128", "-129", "-999", "-1000", "-1001", "-32767", "-32768"}
Fractions == {"0.0", "0.5", "1.5", "2.0", "0.25", "0.001", "3.75", "16.0", "1024.5", "-0.0", "-0.5", "-1.0", "-100.25"}
Few == {"0", "1", "80", "81", "443", "8080", "8081", "65534", "65535"}
Names == {"web", "a", "0", "my-app_1", "A.b", "root", "x"}
Wordings == {"", "a", "a b", "echo hi", "./a/b", "/run/x", "web", "x=y", "CMD", "NONE", "null", "80"}
Lists == {<<>>, <<"a">>, <<"a", "b c">>, <<"CMD", "a">>, <<"NONE">>, <<"">>, <<"b", "a", "b">>}
AbsolutePaths == {"/", "/data", "/a b/c", "/x-1", "/a/./b"}
HostPaths == {"/", "/src", "./src", "../x", ".", "..", "/a/../b", "./a b"}
Permissions == {"r", "w", "m", "rw", "rm", "wm", "rwm"}
Images == {"web", "reg.io:5000/a/b:1.2", "a/b@sha256:0123", "localhost/x"}
Some1(S) == {<<s>> : s \in S}
Pairs(A, B) == {<<a, b>> : a \in A, b \in B}

Ranged(a, b) == IF a = b THEN a ELSE a \o "-" \o b
Octet(n) == LET hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
                k == SmallVal(Chars(n))
            IN hex[(k \div 16) + 1] \o hex[(k % 16) + 1]
Octets == {"0", "1", "9", "10", "15", "16", "127", "171", "200", "255"}

RECURSIVE Interleaved(_)
Interleaved(ss) == IF Len(ss) = 1 THEN ss ELSE <<ss[1], ":">> \o Interleaved(Tail(ss))
Texted(ss) == Map(LAMBDA s : Txt(s), ss)
EnvFileT == Or(Path, ListOf(ShortOrLong(Path, Sec("EnvFile"))), Never)

\* What each may be given.
ArgsOf(h) ==
    CASE h = "percent" -> Some1(UpTo("255"))
      [] h = "oom" -> Some1(UpTo("32767") \cup Negative)
      [] h = "weight" -> Some1(UpTo("65535"))
      [] h = "cpus.int" -> Some1(UpTo("4294967295") \cup Negative)
      [] h = "cpus.float" -> Some1(Fractions \cup {"inf", "-inf", "NaN"})
      [] h \in {"count", "limit.u64", "limit.bytes", "short.limit", "ulimit", "ulimit.number", "bytes.b", "bytes.kb", "bytes.mb", "bytes.gb"} -> Some1(Numbers)
      [] h = "limit.u32" -> Some1(UpTo("4294967295"))
      [] h \in {"limit.u32.none", "limit.u64.none", "limit.bytes.none", "count.all", "healthcheck.disable", "healthcheck.default", "ssh.default", "network.default", "volume.default"} -> {<<>>}
      [] h \in {"range.one", "expose.one", "port.one", "longport.one"} -> Some1(UpTo("65535"))
      [] h \in {"range.pair", "port.range"} -> Pairs(Few, Few)
      [] h = "expose" -> {<<a, b, p>> : a \in Few, b \in Few, p \in {"", "tcp", "udp", "x"}}
      [] h = "port" -> {<<ip, a, b, c, d, p>> : ip \in {"", "10.0.0.1", "::1"}, a \in {"", "80", "8080"}, b \in {"80", "85", "8085", "65535"},
                                             c \in {"80", "3000"}, d \in {"80", "85", "3005"}, p \in {"", "udp"}}
      [] h = "user.one" -> Some1(UpTo("4294967295") \cup {"root", "web-1", "a$", "_x"})
      [] h = "user.pair" -> Pairs({"0", "1000", "4294967295", "root", "web-1"}, {"0", "65535", "root", "a$"})
      [] h = "id" -> Some1(UpTo("4294967295") \cup {"root", "web-1", "a$", "_x"})
      [] h = "mac" -> {<<a, b, "0", "255", b, a>> : a \in Octets, b \in Octets} \cup {<<"1", "2", "3", "4", "5", "6">>}
      [] h = "device" -> {<<a, b, p>> : a \in {"/dev/a", "a b", "x"}, b \in AbsolutePaths, p \in Permissions}
      [] h = "cgrouprule" -> {<<k, a, b, p>> : k \in {"a", "b", "c"}, a \in {"*", "0", "1", "65535"}, b \in {"*", "0", "7", "65535"}, p \in Permissions}
      [] h \in {"command.text"} -> Some1(Wordings)
      [] h \in {"command.list", "healthcheck.list"} -> Lists
      [] h \in {"healthcheck.text", "envfile.text", "envfile.config", "include", "config.file", "config.environment", "config.content",
                "secret.file", "secret.environment", "short.path"} -> Some1(Wordings)
      [] h \in {"envfile.list", "item.list"} -> Lists
      [] h = "item.one" -> Some1(Wordings)
      [] h \in {"link", "depends", "networks"} -> Some1(Names)
      [] h = "link.alias" -> Pairs(Names, {"", "db", "x y", "8"})
      [] h = "volumesfrom" -> {<<k, n, r>> : k \in {"service", "container"}, n \in Names, r \in {"", "ro"}}
      [] h \in {"netmode.service", "netmode.container", "ipc.service"} -> Some1(Names)
      [] h = "network.mode" -> Some1({"none", "host", "service:web", "container:a"})
      [] h \in {"cache.image", "cacheoption.image"} -> Some1(Images)
      [] h = "cache" -> {<<ty>> \o o : ty \in {"local", "gha"}, o \in {<<>>, <<"a", "b">>, <<"src", "./x", "mode", "max">>}}
      [] h = "ssh" -> Pairs({"a", "my id", "default", ""}, {"/x", "a=b", "./p", ""})
      [] h = "capabilities" -> {<<>>, <<"gpu">>, <<"tpu", "gpu">>, <<"gpu", "x", "gpu">>}
      [] h \in {"external.network", "external.volume", "external.config", "external.secret"} -> Some1({"", "a", "a b"})
      [] h = "volume.target" -> Some1(AbsolutePaths)
      [] h = "volume" -> {<<s, t, r, l>> : s \in HostPaths \cup Names, t \in AbsolutePaths, r \in {"", "ro"}, l \in {"", "z", "Z"}}
      [] h \in {"mount.tmpfs", "mount.volume"} -> Some1(AbsolutePaths)
      [] h \in {"mount.bind", "mount.npipe"} -> Pairs(HostPaths, AbsolutePaths)
      [] h = "mount.cluster" -> Pairs(Wordings, AbsolutePaths)
      [] h = "bind.propagation" -> Some1({"private", "rprivate", "shared", "rshared", "slave", "rslave"})
      [] h = "bind.selinux" -> Some1({"z", "Z"})

Joined2(a, sep, b) == IF b = "" THEN a ELSE a \o sep \o b
\* How it would be written, as which type.
TypeOf(h) ==
    CASE h = "percent" -> Lf("percent") [] h = "oom" -> Lf("oom") [] h = "weight" -> Lf("weight")
      [] h \in {"cpus.int", "cpus.float"} -> Lf("cpus") [] h \in {"count", "count.all"} -> Lf("count")
      [] h \in {"limit.u32", "limit.u32.none"} -> Lf("limit.u32") [] h \in {"limit.u64", "limit.u64.none"} -> Lf("limit.u64")
      [] h \in {"limit.bytes", "limit.bytes.none"} -> Lf("limit.bytes") [] h \in {"bytes.b", "bytes.kb", "bytes.mb", "bytes.gb"} -> Bytes
      [] h = "short.limit" -> ShortOrLong(Lf("limit.u64"), Sec("Ulimit")) [] h \in {"ulimit", "ulimit.number"} -> Sec("Ulimit")
      [] h \in {"range.one", "range.pair"} -> Lf("range") [] h \in {"expose.one", "expose"} -> Lf("expose")
      [] h \in {"port.one", "port.range", "port"} -> Lf("port") [] h = "longport.one" -> Sec("Port")
      [] h \in {"user.one", "user.pair"} -> Lf("user") [] h = "id" -> Lf("id") [] h = "mac" -> Lf("mac")
      [] h = "device" -> Lf("device") [] h = "cgrouprule" -> Lf("cgrouprule")
      [] h \in {"command.text", "command.list"} -> CommandT
      [] h \in {"healthcheck.text", "healthcheck.list", "healthcheck.disable", "healthcheck.default"} -> Own("healthcheck")
      [] h \in {"envfile.text", "envfile.list"} -> EnvFileT [] h = "envfile.config" -> Sec("EnvFile") [] h = "include" -> Sec("Include")
      [] h = "short.path" -> ShortOrLong(Path, Sec("Include"))
      [] h \in {"config.file", "config.environment", "config.content", "external.config"} -> Own("config")
      [] h \in {"secret.file", "secret.environment", "external.secret"} -> Own("secret")
      [] h \in {"external.network", "network.default"} -> Own("network") [] h \in {"external.volume", "volume.default"} -> Own("volume")
      [] h \in {"item.one", "item.list"} -> ItemOrList(Str)
      [] h \in {"link", "link.alias"} -> Lf("link") [] h = "volumesfrom" -> Lf("volumesfrom")
      [] h \in {"netmode.service", "netmode.container"} -> Lf("netmode") [] h = "ipc.service" -> Lf("ipc")
      [] h \in {"network.mode", "depends", "networks"} -> Sec("Service")
      [] h \in {"cache.image", "cache"} -> Lf("cache") [] h = "cacheoption.image" -> Str
      [] h \in {"ssh", "ssh.default"} -> Lf("ssh") [] h = "capabilities" -> Sec("ReservedDevice")
      [] h \in {"volume.target", "volume"} -> Lf("volume")
      [] h \in {"mount.tmpfs", "mount.volume", "mount.bind", "mount.npipe", "mount.cluster"} -> Own("mount")
      [] h \in {"bind.propagation", "bind.selinux"} -> Sec("BindOptions")

NodeOf(h, a) ==
    LET one == a[1] IN
    CASE h \in {"percent", "oom", "weight", "cpus.int", "count", "limit.u32", "limit.u64", "limit.bytes", "short.limit", "range.one", "expose.one", "port.one"} -> Num(one)
      [] h = "cpus.float" -> IF one \in {"inf", "-inf", "NaN"} THEN Txt(one) ELSE Flo(one)
      [] h \in {"limit.u32.none", "limit.u64.none", "limit.bytes.none"} -> Num("-1")
      [] h = "count.all" -> Txt("all")
      [] h = "bytes.b" -> Txt(one \o "b") [] h = "bytes.kb" -> Txt(one \o "kb") [] h = "bytes.mb" -> Txt(one \o "mb") [] h = "bytes.gb" -> Txt(one \o "gb")
      [] h \in {"ulimit", "ulimit.number"} -> Dict(<<Key("soft", Num(one)), Key("hard", Num(one))>>)
      [] h = "longport.one" -> Dict(<<Key("target", Num(one))>>)
      [] h \in {"range.pair", "port.range"} -> Txt(Ranged(one, a[2]))
      [] h = "expose" -> Txt(Joined2(Ranged(one, a[2]), "/", a[3]))
      [] h = "port" -> Txt((IF one = "" THEN "" ELSE one \o ":") \o (IF a[2] = "" THEN (IF one = "" THEN "" ELSE ":") ELSE Ranged(a[2], a[3]) \o ":")
                           \o Joined2(Ranged(a[4], a[5]), "/", a[6]))
      [] h = "user.one" -> Txt(one) [] h = "user.pair" -> Txt(one \o ":" \o a[2])
      [] h = "id" -> Txt(one)
      [] h = "mac" -> Txt(Join(Interleaved(Map(LAMBDA n : Octet(n), a))))
      [] h = "device" -> Txt(one \o ":" \o a[2] \o ":" \o a[3])
      [] h = "cgrouprule" -> Txt(one \o " " \o a[2] \o ":" \o a[3] \o " " \o a[4])
      [] h \in {"command.text", "item.one", "short.path", "envfile.text", "volume.target", "cacheoption.image", "link"} -> Txt(one)
      [] h \in {"command.list", "item.list", "envfile.list"} -> Lst(Texted(a))
      [] h = "healthcheck.list" -> Dict(<<Key("test", Lst(<<Txt("CMD")>> \o Texted(a)))>>)
      [] h = "healthcheck.text" -> Dict(<<Key("test", Txt(one))>>)
      [] h = "healthcheck.disable" -> Dict(<<Key("disable", Bool(TRUE))>>)
      [] h \in {"healthcheck.default", "network.default", "volume.default"} -> Dict(<<>>)
      [] h \in {"envfile.config", "include"} -> Dict(<<Key("path", Txt(one))>>)
      [] h \in {"config.file", "secret.file"} -> Dict(<<Key("file", Txt(one))>>)
      [] h \in {"config.environment", "secret.environment"} -> Dict(<<Key("environment", Txt(one))>>)
      [] h = "config.content" -> Dict(<<Key("content", Txt(one))>>)
      [] h \in {"external.network", "external.volume", "external.config", "external.secret"} ->
            Dict(<<Key("external", Bool(TRUE))>> \o (IF one = "" THEN <<>> ELSE <<Key("name", Txt(one))>>))
      [] h = "link.alias" -> Txt(one \o ":" \o a[2])
      [] h = "volumesfrom" -> Txt(Joined2((IF one = "container" THEN "container:" ELSE "") \o a[2], ":", a[3]))
      [] h \in {"netmode.service", "ipc.service"} -> Txt("service:" \o one) [] h = "netmode.container" -> Txt("container:" \o one)
      [] h = "network.mode" -> Dict(<<Key("network_mode", Txt(one))>>)
      [] h = "depends" -> Dict(<<Key("depends_on", Lst(Texted(a)))>>)
      [] h = "networks" -> Dict(<<Key("networks", Lst(Texted(a)))>>)
      [] h = "cache.image" -> Txt("type=registry,ref=" \o one)
      [] h = "cache" -> Txt("type=" \o one \o (IF Len(a) > 1 THEN "," \o a[2] \o "=" \o a[3] ELSE "") \o (IF Len(a) > 3 THEN "," \o a[4] \o "=" \o a[5] ELSE ""))
      [] h = "ssh" -> Txt(one \o "=" \o a[2]) [] h = "ssh.default" -> Txt("default")
      [] h = "capabilities" -> Dict(<<Key("capabilities", Lst(Texted(a)))>>)
      [] h = "volume" -> Txt(one \o ":" \o a[2] \o (IF a[3] = "" /\ a[4] = "" THEN "" ELSE ":" \o (IF a[3] = "" THEN a[4] ELSE Joined2(a[3], ",", a[4]))))
      [] h = "mount.tmpfs" -> Dict(<<Key("type", Txt("tmpfs")), Key("target", Txt(one))>>)
      [] h = "mount.volume" -> Dict(<<Key("type", Txt("volume")), Key("target", Txt(one))>>)
      [] h = "mount.bind" -> Dict(<<Key("type", Txt("bind")), Key("source", Txt(one)), Key("target", Txt(a[2]))>>)
      [] h = "mount.npipe" -> Dict(<<Key("type", Txt("npipe")), Key("source", Txt(one)), Key("target", Txt(a[2]))>>)
      [] h = "mount.cluster" -> Dict(<<Key("type", Txt("cluster")), Key("source", Txt(one)), Key("target", Txt(a[2]))>>)
      [] h = "bind.propagation" -> Dict(<<Key("propagation", Txt(one))>>)
      [] h = "bind.selinux" -> Dict(<<Key("selinux", Txt(one))>>)

Init == how \in Focus /\ args = <<>>
Next == args = <<>> /\ how' = how /\ args' \in {<<a>> : a \in ArgsOf(how)}
Emit ==
    args # <<>> =>
    LET node == NodeOf(how, args[1])
        r == Canon(TypeOf(how), node)
    IN PrintT("CASE " \o ToJson([op |-> "made.of", in |-> [how |-> how, args |-> args[1], node |-> node],
                                 out |-> IF IsSome(r) THEN [ok |-> TRUE, tree |-> r[1]] ELSE [ok |-> FALSE]]))
\* What is made is written so that it is made again.
Settles ==
    args # <<>> => LET r == Canon(TypeOf(how), NodeOf(how, args[1])) IN IsSome(r) => Canon(TypeOf(how), AsInput(r[1])) = r
=============================================================================
