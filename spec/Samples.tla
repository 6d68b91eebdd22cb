------------------------------- MODULE Samples -------------------------------
(***************************************************************************)
(* What a user may write for each type: values it takes, near misses, and  *)
(* values of every other kind.  Whether one is acceptable is for Schema to *)
(* say; the two lists only decide where to look.                           *)
(***************************************************************************)
EXTENDS Schema

Texts(ss) == Map(Txt, ss)
Ints(ss) == Map(Num, ss)

GoodLeaf(a) ==
    CASE a = "any" -> <<Txt("v"), Nil, Num("7"), Bool(FALSE), Flo("1.5"), Lst(<<Num("1"), Nil>>), Dict(<<Key("a", Dict(<<>>)), Key("0", Txt(""))>>)>>
      [] a = "never" -> <<>>
      [] a = "str" -> Texts(<<"text", "", "true", "12", "a b", "~", " x ", "a: b", "- a", "é#", "null", "0x1F", "1e3", "multi\nline">>)
      [] a = "path" -> Texts(<<"./a/b", "/etc/x", "rel", "", "~/x", "a b">>)
      [] a = "bool" -> <<Bool(TRUE), Bool(FALSE)>>
      [] a = "u64" -> Ints(<<"3", "0", "18446744073709551615">>)
      [] a = "u32" -> Ints(<<"288", "0", "4294967295">>)
      [] a = "u16" -> Ints(<<"80", "0", "65535">>)
      [] a = "percent" -> Ints(<<"50", "0", "100">>)
      [] a = "weight" -> Ints(<<"300", "10", "1000">>)
      [] a = "oom" -> Ints(<<"-500", "0", "1000", "-1000", "7">>)
      [] a = "value" -> <<Txt("v"), Num("-3"), Bool(FALSE), Flo("2.5"), Txt(""), Txt("5"), Bool(TRUE), Num("18446744073709551615")>>
      [] a = "strnum" -> <<Txt("v"), Num("5"), Flo("0.5"), Txt(""), Num("-9"), Txt("5")>>
      [] a = "micros" -> Ints(<<"950000", "0">>)
      [] a = "duration" -> <<Txt("1m30s"), Txt("90s"), Txt("40us"), Num("1500"), Num("0"), Txt("24h")>>
      [] a = "cpus" -> <<Flo("1.5"), Num("2"), Txt("0.25"), Num("0"), Txt("3")>>
      [] a = "bytes" -> <<Txt("64m"), Num("2048"), Txt("1gb"), Txt("300"), Txt("5K"), Num("0")>>
      [] a = "limit.u32" -> <<Num("50"), Num("-1"), Txt("-1"), Txt("4294967295"), Num("0")>>
      [] a = "limit.u64" -> <<Num("65535"), Num("-1"), Txt("-1"), Txt("18446744073709551615"), Num("0")>>
      [] a = "limit.bytes" -> <<Txt("2g"), Num("-1"), Txt("-1"), Num("4096"), Txt("0b")>>
      [] a = "uid" -> Texts(<<"103", "0", "4294967295", "007">>)
      [] a = "id" -> <<Txt("mail"), Num("1000"), Txt("12"), Num("0")>>
      [] a = "user" -> Texts(<<"app", "1000:1000", "0", "app:staff", "12:mail">>)
      [] a = "count" -> <<Txt("all"), Num("2"), Txt("3"), Num("0")>>
      [] a = "range" -> <<Num("8080"), Txt("3000-3005"), Txt("90"), Txt("7-7"), Num("0")>>
      [] a = "expose" -> <<Num("3000"), Txt("8000/udp"), Txt("3000-3005"), Txt("80"), Txt("1-2/tcp"), Num("65535")>>
      [] a = "port" -> <<Num("3000"), Txt("8000:80"), Txt("127.0.0.1:8001:81/udp"), Txt("3000-3005"), Txt("[::1]:5:5"), Txt("127.0.0.1::90"),
                         Txt("9090-9091:80-81"), Txt("53/udp")>>
      [] a = "name" -> Texts(<<"proj", "a-1_b", "0">>)
      [] a = "identifier" -> Texts(<<"web", "db.1", "A_b-c">>)
      [] a = "hostname" -> Texts(<<"host", "a.example.com", "X-1">>)
      [] a = "ip" -> Texts(<<"10.0.0.1", "::1", "FE80:0::1", "::ffff:1.2.3.4">>)
      [] a = "ipv4" -> Texts(<<"172.16.238.10", "0.0.0.0">>)
      [] a = "ipv6" -> Texts(<<"2001:3984:3989::10", "0:0:0:0:0:0:0:0">>)
      [] a = "ipnet" -> Texts(<<"172.28.0.0/16", "10.1.2.3/32", "2001:db8::/64", "0.0.0.0/0">>)
      [] a = "mac" -> Texts(<<"92:d0:c6:0a:29:33", "AA:B:0:1:2:3">>)
      [] a = "image" -> Texts(<<"redis", "redis:5", "quay.io/a/b:1.0_x",
                "redis@sha256:0ed5d5928d4737458944eb604cc8509e245c3e19d02ad83935398bc4b991aac7", "localhost.x:5000/img">>)
      [] a = "platform" -> Texts(<<"linux/amd64", "linux", "linux/arm64/v8", "windows/amd64">>)
      [] a = "abspath" -> Texts(<<"/data", "/", "/a/b c/../d">>)
      [] a = "hostpath" -> Texts(<<"./src", "/srv", "..", "../a", ".">>)
      [] a = "link" -> Texts(<<"db", "db:database", "db:">>)
      [] a = "volumesfrom" -> Texts(<<"web", "web:ro", "container:c1:rw", "container:c1", "web:rw">>)
      [] a = "device" -> Texts(<<"/dev/ttyUSB0:/dev/ttyUSB0", "/dev/sda:/dev/xvda:rwm", "x:/y:m">>)
      [] a = "cgrouprule" -> Texts(<<"c 1:3 mr", "a 7:* rmw", "b *:5 r">>)
      [] a = "netmode" -> Texts(<<"host", "none", "service:web", "container:c", "bridge">>)
      [] a = "ipc" -> Texts(<<"shareable", "service:web", "host">>)
      [] a = "ssh" -> Texts(<<"default", "proj=~/.ssh/p.pem", "k=v=w">>)
      [] a = "cache" -> Texts(<<"alpine", "type=local,src=x", "type=registry,ref=user/app:cache", "type=gha", "type=registry,ref=a,mode=max">>)
      [] a = "context" -> Texts(<<".", "./dir", "https://github.com/me/repo.git#main:sub", "rel/x">>)
      [] a = "buildnet" -> Texts(<<"none", "net1">>)
      [] a = "cpuset" -> Texts(<<"0-3", "0,1", "5,2-4,1", "", "7,">>)
      [] a = "volume" -> Texts(<<"/data", "vol:/data", "./src:/app:ro", "/a:/b:rw,z", "../x:/y:Z", "vol:/data:ro">>)

BadLeaf(a) ==
    CASE a \in {"any", "never", "str", "path", "context"} -> <<>>
      [] a = "bool" -> <<Txt("true"), Txt("yes")>>
      [] a \in {"u64", "micros"} -> <<Num("-1"), Txt("3"), Flo("3.0"), Flo("1e+20")>>
      [] a = "u32" -> <<Num("4294967296"), Num("-1"), Txt("0440"), Flo("288.0")>>
      [] a = "u16" -> <<Num("65536"), Num("-1"), Txt("80"), Flo("80.0")>>
      [] a = "percent" -> <<Num("101"), Num("-1"), Num("255"), Num("256"), Txt("50"), Txt("50%"), Flo("50.0")>>
      [] a = "weight" -> <<Num("9"), Num("1001"), Num("-10"), Num("65546"), Txt("300"), Flo("300.0")>>
      [] a = "oom" -> <<Num("1001"), Num("-1001"), Num("66036"), Txt("5"), Flo("5.0")>>
      [] a = "value" -> <<Lst(<<Txt("v")>>), Dict(<<Key("a", Txt("v"))>>)>>
      [] a = "strnum" -> <<Bool(TRUE), Lst(<<>>)>>
      [] a = "duration" -> <<Txt("1d"), Txt("s"), Txt(""), Txt("1.5s"), Txt("-1s"), Txt("5"), Num("-1"), Flo("1.5"), Txt("1s "),
                             Txt("18446744073709551616us")>>
      [] a = "cpus" -> <<Flo("-1.5"), Num("-1"), Txt("-2"), Txt("x"), Txt(""), Flo(".nan"), Flo(".inf"), Txt("1.2.3")>>
      [] a = "bytes" -> <<Num("-1"), Txt("-1"), Txt("64mb "), Txt("1.5g"), Txt("m"), Txt(""), Txt("1t"), Flo("64.0"), Txt("18446744073709551616")>>
      [] a \in LimitKinds -> <<Num("-2"), Txt("-2"), Txt("--1"), Txt(""), Flo("-1.0"), Txt("18446744073709551616"), Txt("x")>>
                             \o (IF a = "limit.u32" THEN <<Num("4294967296"), Txt("4294967296")>> ELSE <<>>)
      [] a = "uid" -> <<Num("103"), Txt("-1"), Txt("root"), Txt(""), Txt("4294967296")>>
      [] a = "id" -> <<Num("-1"), Num("4294967296"), Txt(""), Txt("-a"), Txt("a b"), Txt("4294967296"), Flo("1.0")>>
      [] a = "user" -> <<Num("1000"), Txt(""), Txt("a:"), Txt(":b"), Txt("a:b:c"), Txt("-a"), Txt("a b")>>
      [] a = "count" -> <<Num("-1"), Txt("some"), Txt(""), Txt("-1"), Txt("All")>>
      [] a \in {"range", "expose", "port"} -> <<Num("65536"), Num("-1"), Txt("5-3"), Txt("-5"), Txt("5-"), Txt(""), Txt("a"), Flo("80.0"), Txt("1:2:3:4:5")>>
      [] a = "name" -> Texts(<<"", "A", "-a", "_a", "a.b", "é">>)
      [] a = "identifier" -> Texts(<<"", "-a", ".a", "a b", "a/b", "é">>)
      [] a = "hostname" -> Texts(<<"", "-a", "a-", "a..b", "a_b", "a.">>)
      [] a = "ip" -> Texts(<<"", "10.0.0", "10.0.0.256", "[::1]", "::g", "10.0.0.1/8", "01.0.0.1">>)
      [] a = "ipv4" -> Texts(<<"::1", "1.2.3", "1.2.3.4.5">>)
      [] a = "ipv6" -> Texts(<<"1.2.3.4", ":::", "1::2::3">>)
      [] a = "ipnet" -> Texts(<<"172.28.0.0", "172.28.0.0/33", "::/129", "/16", "172.28.0.0/">>)
      [] a = "mac" -> Texts(<<"92:d0:c6:0a:29", "92:d0:c6:0a:29:33:44", "92-d0-c6-0a-29-33", "g0:00:00:00:00:00", "">>)
      [] a = "image" -> Texts(<<"", "Redis", "redis:", ":5", "redis@", "redis@sha256:xyz", "a//b", "redis:5:6">>)
      [] a = "platform" -> Texts(<<"", "linux/", "linux/foo", "linux/amd64/v8", "Linux", "darwin/arm">>)
      [] a \in {"abspath"} -> Texts(<<"", "data", "./data", " /data">>)
      [] a = "hostpath" -> Texts(<<"", "data", "~/x", ".data/..">>)
      [] a = "link" -> Texts(<<"", ":db", "-db", "a b">>)
      [] a = "volumesfrom" -> Texts(<<"", ":ro", "web:rx", "container:", "a:b:c">>)
      [] a = "device" -> Texts(<<"", "/dev/a", "/dev/a:b", "/dev/a:/b:x", "/dev/a:/b:r:w">>)
      [] a = "cgrouprule" -> Texts(<<"", "d 1:3 r", "c 1 r", "c 1:65536 r", "c 1:3 x", "c1:3 r">>)
      [] a = "netmode" -> Texts(<<"service:", "container:-a", "service:a b">>)
      [] a = "ipc" -> Texts(<<"service:", "service:a b">>)
      [] a = "ssh" -> Texts(<<"", "=", "a=", "=b", "key">>)
      [] a = "cache" -> Texts(<<"", "type=", "type=registry", "local,src=x", "type=local,src", "type=local,src=", "A">>)
      [] a = "buildnet" -> Texts(<<"", "a b", "-a">>)
      [] a = "cpuset" -> Texts(<<"3-1", "a", "-", ",1", "1,,2", " 1">>)
      [] a = "volume" -> Texts(<<"", "data", "vol:data", "vol:/d:rx", "vol:/d:ro,rw", "vol:/d:", "a b:/d", ".x:/d">>)

GoodKeys(kind) ==
    CASE kind = "key.identifier" -> <<"web", "db", "app_1", "z.9">>
      [] kind = "key.map" -> <<"b.key", "A", "0", "k k", "<">>
      [] kind = "key.hostname" -> <<"host2", "a.b", "c-3">>
      [] kind = "key.ulimit" -> <<"nofile", "nproc", "core">>
BadKeys(kind) ==
    CASE kind = "key.identifier" -> <<"", "-a", "a b">>
      [] kind = "key.map" -> <<"", "a\nb">>
      [] kind = "key.hostname" -> <<"", "a_b", "-a">>
      [] kind = "key.ulimit" -> <<"", "NOFILE", "no file">>

Generic == <<Nil, Bool(TRUE), Bool(FALSE), Num("0"), Num("5"), Num("-1"), Num("4294967296"), Num("18446744073709551615"), Flo("1.5"), Flo("-0.5"),
             Txt(""), Txt("text"), Txt("Host"), Txt("5"), Txt("/p"), Lst(<<>>), Lst(<<Txt("a")>>), Lst(<<Num("5")>>), Lst(<<Nil>>), Lst(<<Lst(<<>>)>>),
             Lst(<<Dict(<<>>)>>), Dict(<<>>), Dict(<<Key("a", Txt("b"))>>), Dict(<<Key("bogus", Nil)>>), Dict(<<Key("x-a", Num("1"))>>)>>

\* The entry of a required field, or of one out of several alternatives.
Alternatives(a) ==
    CASE a = "CredentialSpec" -> <<"config">> [] a = "Config" -> <<"file">> [] a = "Secret" -> <<"file">> [] OTHER -> <<>>
MountTypeOf(a) ==
    CASE a = "MountVolume" -> <<"volume">> [] a = "MountBind" -> <<"bind">> [] a = "MountTmpfs" -> <<"tmpfs">>
      [] a = "MountNpipe" -> <<"npipe">> [] a = "MountCluster" -> <<"cluster">> [] OTHER -> <<>>

TwoKeys(kind, v, w) == Dict(<<Key(GoodKeys(kind)[1], v), Key(GoodKeys(kind)[2], w)>>)
RECURSIVE Good(_), Bad(_), Minimal(_), Full(_, _)
First1(s) == SubSeq(s, 1, IF Len(s) = 0 THEN 0 ELSE 1)
\* Defined outside, under whatever name.
OutsideNamed == Map(LAMBDA n : Dict(<<Key("external", Bool(TRUE)), Key("name", n)>>), Texts(<<"", " x ", "true", "12">>))
Good(ty) ==
    CASE ty.g = "leaf" -> GoodLeaf(ty.a)
      [] ty.g = "kw" -> Texts(Words(ty.a)) \o Map(LAMBDA p : Txt(p[1]), Aliases(ty.a))
                        \o (IF ty.a \in OpenSets THEN Texts(<<"other", "", "HOST">>) ELSE <<>>)
      [] ty.g \in {"list", "set"} ->
            LET g == Good(ty.s[1])
            IN <<Lst(g), Lst(<<g[1]>>), Lst(<<>>), Lst(<<g[1], g[Len(g)], g[1]>>)>> \o Map(LAMBDA x : Lst(<<x>>), Tail(g))
      [] ty.g \in {"map", "nmap"} ->
            LET g == Good(ty.s[1])
                ks == GoodKeys(ty.a)
            IN <<Dict(<<Key(ks[1], g[1])>>), Dict(<<>>), TwoKeys(ty.a, g[Len(g)], g[1]),
                 Dict([i \in 1..Len(ks) |-> Key(ks[i], g[((i * 2) % Len(g)) + 1])])>>
               \o (IF ty.g = "nmap" THEN <<TwoKeys(ty.a, Nil, g[1]), Dict(<<Key(ks[1], Nil)>>)>> ELSE <<>>)
               \o Map(LAMBDA x : Dict(<<Key(ks[1], x)>>), Tail(g)) \o Map(LAMBDA k : Dict(<<Key(k, g[1])>>), Tail(ks))
      [] ty.g = "or" -> Good(ty.s[1]) \o (IF ty.s[2] = ty.s[1] THEN <<>> ELSE Good(ty.s[2])) \o Good(ty.s[3])
      [] ty.g = "sec" -> <<Minimal(ty.a), Full(ty.a, 1), Full(ty.a, 2)>>
      [] ty.g = "own" ->
            CASE ty.a = "network" -> <<Minimal("Network"), Full("Network", 1), Dict(<<Key("external", Bool(TRUE))>>),
                                        Dict(<<Key("external", Bool(TRUE)), Key("name", Txt("n"))>>)>> \o OutsideNamed
              [] ty.a = "volume" -> <<Full("Volume", 1), Minimal("Volume"), Dict(<<Key("name", Txt("n")), Key("external", Bool(TRUE))>>),
                                       Dict(<<Key("external", Bool(FALSE)), Key("driver", Txt("d"))>>)>> \o OutsideNamed
              [] ty.a = "config" -> <<Minimal("Config"), Full("Config", 1), Dict(<<Key("content", Txt("c"))>>), Dict(<<Key("external", Bool(TRUE))>>)>> \o OutsideNamed
              [] ty.a = "secret" -> <<Minimal("Secret"), Full("Secret", 1), Dict(<<Key("environment", Txt("E"))>>), Dict(<<Key("external", Bool(TRUE))>>)>> \o OutsideNamed
              [] ty.a = "mount" -> <<Full("MountBind", 1), Minimal("MountVolume"), Full("MountVolume", 2), Minimal("MountTmpfs"), Full("MountTmpfs", 1),
                                     Minimal("MountNpipe"), Full("MountCluster", 1), Minimal("MountBind")>>
              [] ty.a = "healthcheck" -> <<Full("Healthcheck", 1), Minimal("Healthcheck"), Dict(<<Key("disable", Bool(TRUE))>>),
                                           Dict(<<Key("test", TestNone)>>), Dict(<<Key("disable", Bool(FALSE)), Key("retries", Num("2"))>>)>>
              [] ty.a = "test" -> <<Lst(Texts(<<"CMD", "curl", "-f", "">>)), Txt("exit 0"), Lst(Texts(<<"CMD-SHELL", "a || b">>)), Lst(Texts(<<"CMD">>)),
                                    Txt("NONE"), Txt(""), TestNone>>
              [] ty.a = "extra_hosts" ->
                    <<Dict(<<Key("host2", Txt("10.0.0.2")), Key("host1", Txt("[::1]"))>>), Lst(Texts(<<"h=1.2.3.4", "g:[fe80::1]", "f:::1">>)),
                      Lst(Texts(<<"h=1.2.3.4", "g=::2", "h:5.6.7.8">>)), Dict(<<>>), Lst(<<>>)>>
              [] ty.a = "contexts" ->
                    <<Dict(<<Key("res", Txt("./r")), Key("n", Num("5")), Key("b", Bool(TRUE)), Key("z", Nil)>>), Lst(Texts(<<"res=./r", "a=b=c", "only", "e=">>)),
                      Lst(Texts(<<"n=5", "m=true", "p=007", "q=1.50", "r=-1">>)), Dict(<<>>), Lst(<<>>)>>
Bad(ty) ==
    CASE ty.g = "leaf" -> BadLeaf(ty.a)
      [] ty.g = "kw" -> Texts(<<"", "bogus", "ANY", " host", Words(ty.a)[1] \o "x", Words(ty.a)[1] \o " ">>)
      [] ty.g \in {"list", "set"} ->
            LET g == Good(ty.s[1])
            IN Map(LAMBDA b : Lst(<<g[1], b>>), Bad(ty.s[1])) \o <<g[1], Lst(<<g[1], Nil>>), Dict(<<Key("0", g[1])>>)>>
      [] ty.g \in {"map", "nmap"} ->
            LET g == Good(ty.s[1])
            IN Map(LAMBDA b : TwoKeys(ty.a, g[1], b), Bad(ty.s[1])) \o Map(LAMBDA k : Dict(<<Key(k, g[1])>>), BadKeys(ty.a))
               \o <<g[1], Lst(<<g[1]>>), TwoKeys(ty.a, g[1], Nil)>>
      [] ty.g = "or" -> Bad(ty.s[1]) \o (IF ty.s[2] = ty.s[1] THEN <<>> ELSE Bad(ty.s[2])) \o Bad(ty.s[3])
      [] ty.g = "sec" -> <<Lst(<<Minimal(ty.a)>>), [Full(ty.a, 1) EXCEPT !.c = @ \o <<Key("bogus", Num("1"))>>]>>
      [] ty.g = "own" ->
            CASE ty.a \in {"network", "volume", "config", "secret"} ->
                    <<Dict(<<Key("external", Txt("true"))>>), Dict(<<Key("external", Nil)>>), Dict(<<Key("external", Bool(TRUE)), Key("driver", Txt("d"))>>),
                      Dict(<<Key("external", Bool(TRUE)), Key("x-a", Txt("d"))>>), Dict(<<Key("external", Bool(TRUE)), Key("name", Nil)>>),
                      Dict(<<Key("external", Bool(FALSE))>>), Dict(<<Key("external", Dict(<<Key("name", Txt("n"))>>))>>),
                      Dict(<<Key("external", Bool(TRUE)), Key("name", Num("5"))>>), Dict(<<Key("bogus", Nil)>>)>>
              [] ty.a = "mount" ->
                    <<Dict(<<Key("target", Txt("/t"))>>), Dict(<<Key("type", Txt("Volume")), Key("target", Txt("/t"))>>), Dict(<<Key("type", Txt("volume"))>>),
                      Dict(<<Key("type", Txt("bind")), Key("target", Txt("/t"))>>), Dict(<<Key("type", Txt("volume")), Key("target", Txt("t"))>>),
                      Dict(<<Key("type", Txt("volume")), Key("target", Txt("/t")), Key("bind", Dict(<<>>))>>),
                      Dict(<<Key("type", Txt("volume")), Key("target", Txt("/t")), Key("bogus", Nil)>>)>>
              [] ty.a = "healthcheck" ->
                    <<Dict(<<Key("disable", Bool(TRUE)), Key("retries", Num("1"))>>), Dict(<<Key("disable", Bool(TRUE)), Key("test", TestNone)>>),
                      Dict(<<Key("test", TestNone), Key("interval", Txt("1s"))>>), Dict(<<Key("x-a", Nil), Key("test", TestNone)>>), Dict(<<Key("bogus", Nil)>>)>>
              [] ty.a = "test" -> <<Lst(<<>>), Lst(Texts(<<"cmd", "a">>)), Lst(Texts(<<"NONE", "a">>)), Lst(Texts(<<"CMD-SHELL">>)), Lst(Texts(<<"CMD-SHELL", "a", "b">>)),
                                    Lst(<<Txt("CMD"), Num("1")>>), Lst(<<Txt("CMD"), Nil>>), Nil, Num("5")>>
              [] ty.a = "extra_hosts" ->
                    <<Lst(Texts(<<"h">>)), Lst(Texts(<<"h=">>)), Lst(Texts(<<"=1.2.3.4">>)), Lst(Texts(<<"h=1.2.3">>)), Lst(Texts(<<"h=[1.2.3.4">>)), Lst(Texts(<<"h_=1.2.3.4">>)),
                      Dict(<<Key("h", Nil)>>), Dict(<<Key("h", Num("5"))>>), Dict(<<Key("h", Lst(Texts(<<"1.2.3.4">>)))>>), Dict(<<Key("a b", Txt("1.2.3.4"))>>)>>
              [] ty.a = "contexts" -> <<Lst(Texts(<<"=a">>)), Dict(<<Key("", Txt("a"))>>), Dict(<<Key("a", Lst(<<>>))>>), Lst(<<Num("5")>>)>>
Minimal(a) ==
    LET need == SelectSeq(SectionOf(a).fs, LAMBDA f : f.m = "req")
        alt == SelectSeq(SectionOf(a).fs, LAMBDA f : \E i \in 1..Len(Alternatives(a)) : Alternatives(a)[i] = f.f)
        value(f) == IF f.f = "type" /\ Len(MountTypeOf(a)) = 1 THEN Txt(MountTypeOf(a)[1]) ELSE Good(f.ty)[1]
    IN Dict(Map(LAMBDA f : Key(f.f, value(f)), need \o alt))
\* Every field, as far as they go together; n picks among samples.
Clash(a) ==
    CASE a = "Service" -> {"network_mode"} [] a = "Build" -> {"dockerfile"} [] a = "CredentialSpec" -> {"file", "registry"}
      [] a = "Config" -> {"environment", "content"} [] a = "Secret" -> {"environment"} [] a = "Healthcheck" -> {"disable"} [] OTHER -> {}
Full(a, n) ==
    LET fs == SelectSeq(SectionOf(a).fs, LAMBDA f : f.f \notin Clash(a))
        value(f) == IF f.f = "type" /\ Len(MountTypeOf(a)) = 1 THEN Txt(MountTypeOf(a)[1])
                    ELSE LET g == Good(f.ty) IN g[IF n <= Len(g) THEN n ELSE 1]
        own == Map(LAMBDA f : Key(f.f, value(f)), fs)
    IN Dict(own \o (IF SectionOf(a).ext THEN <<Key("x-ext", Num("1")), Key("x-", Dict(<<Key("b", Nil), Key("a", Lst(<<>>))>>))>> ELSE <<>>))

(***************************************************************************)
(* Where each section lives in a document.                                 *)
(***************************************************************************)
DocWith(fields) == Dict(Append(fields, Key("services", Dict(<<>>))))
InServices(fields) == Dict(<<Key("services", Dict(<<Key("app", Dict(fields))>>))>>)
InService(f, x) == InServices(<<Key(f, x)>>)
InDeploy(f, x) == InService("deploy", Dict(<<Key(f, x)>>))
InReservations(f, x) == InDeploy("resources", Dict(<<Key("reservations", Dict(<<Key(f, x)>>))>>))
AMount(a, f, x) == InService("volumes", Lst(<<[Minimal(a) EXCEPT !.c = Append(@, Key(f, x))]>>))
Placed(a, x) ==
    CASE a = "Compose" -> x
      [] a = "Include" -> DocWith(<<Key("include", Lst(<<x>>))>>)
      [] a = "Service" -> Dict(<<Key("services", Dict(<<Key("app", x)>>))>>)
      [] a = "ConfigOrSecret" -> InService("configs", Lst(<<x>>))
      [] a = "CredentialSpec" -> InService("credential_spec", x)
      [] a = "Dependency" -> InService("depends_on", Dict(<<Key("db", x)>>))
      [] a = "Develop" -> InService("develop", x)
      [] a = "WatchRule" -> InService("develop", Dict(<<Key("watch", Lst(<<x>>))>>))
      [] a = "EnvFile" -> InService("env_file", Lst(<<x>>))
      [] a = "Extends" -> InService("extends", x)
      [] a = "Healthcheck" -> InService("healthcheck", x)
      [] a = "Logging" -> InService("logging", x)
      [] a = "ServiceNetwork" -> InService("networks", Dict(<<Key("net", x)>>))
      [] a = "Port" -> InService("ports", Lst(<<x>>))
      [] a = "Ulimit" -> InService("ulimits", Dict(<<Key("nofile", x)>>))
      [] a = "Build" -> InService("build", x)
      [] a = "Blkio" -> InService("blkio_config", x)
      [] a = "Bps" -> InService("blkio_config", Dict(<<Key("device_read_bps", Lst(<<x>>))>>))
      [] a = "Iops" -> InService("blkio_config", Dict(<<Key("device_write_iops", Lst(<<x>>))>>))
      [] a = "WeightDevice" -> InService("blkio_config", Dict(<<Key("weight_device", Lst(<<x>>))>>))
      [] a \in {"MountVolume", "MountBind", "MountTmpfs", "MountNpipe", "MountCluster"} -> InService("volumes", Lst(<<x>>))
      [] a = "VolumeOptions" -> AMount("MountVolume", "volume", x)
      [] a = "BindOptions" -> AMount("MountBind", "bind", x)
      [] a = "TmpfsOptions" -> AMount("MountTmpfs", "tmpfs", x)
      [] a = "Deploy" -> InService("deploy", x)
      [] a = "Placement" -> InDeploy("placement", x)
      [] a = "Preference" -> InDeploy("placement", Dict(<<Key("preferences", Lst(<<x>>))>>))
      [] a = "Resources" -> InDeploy("resources", x)
      [] a = "Limits" -> InDeploy("resources", Dict(<<Key("limits", x)>>))
      [] a = "Reservations" -> InDeploy("resources", Dict(<<Key("reservations", x)>>))
      [] a = "ReservedDevice" -> InReservations("devices", Lst(<<x>>))
      [] a = "GenericResource" -> InReservations("generic_resources", Lst(<<x>>))
      [] a = "DiscreteResource" -> InReservations("generic_resources", Lst(<<Dict(<<Key("discrete_resource_spec", x)>>)>>))
      [] a = "RestartPolicy" -> InDeploy("restart_policy", x)
      [] a = "UpdateConfig" -> InDeploy("update_config", x)
      [] a = "Network" -> DocWith(<<Key("networks", Dict(<<Key("net", x)>>))>>)
      [] a = "Ipam" -> DocWith(<<Key("networks", Dict(<<Key("net", Dict(<<Key("ipam", x)>>))>>))>>)
      [] a = "IpamConfig" -> DocWith(<<Key("networks", Dict(<<Key("net", Dict(<<Key("ipam", Dict(<<Key("config", Lst(<<x>>))>>))>>))>>))>>)
      [] a = "Volume" -> DocWith(<<Key("volumes", Dict(<<Key("vol", x)>>))>>)
      [] a = "Config" -> DocWith(<<Key("configs", Dict(<<Key("cfg", x)>>))>>)
      [] a = "Secret" -> DocWith(<<Key("secrets", Dict(<<Key("sec", x)>>))>>)
=============================================================================
