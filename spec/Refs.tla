-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Compact reference texts: users, devices, cgroup rules, platforms,       *)
(* network and IPC modes, links, inherited volumes, MAC addresses, SSH     *)
(* authentication, build caches, build networks, build contexts.           *)
(***************************************************************************)
EXTENDS Image, Keys, Big

Reject == [ok |-> FALSE]

(******************************* users *************************************)
\* A 32-bit number, or else a name.
ParseIdOrName(cs) ==
    LET id == ParseU(cs, U32Max)
    IN IF IsSome(id) THEN Some([kind |-> "id", value |-> Join(id[1])])
       ELSE IF IsUserName(cs) THEN Some([kind |-> "name", value |-> Join(cs)]) ELSE None
EvalIdOrName(s) ==
    LET x == ParseIdOrName(Chars(s))
    IN IF IsNone(x) THEN Reject ELSE [ok |-> TRUE, text |-> x[1].value, kind |-> x[1].kind]
EvalUser(s) ==
    LET cs == Chars(s)
        i == First(cs, ":")
        u == ParseIdOrName(IF i = 0 THEN cs ELSE Before(cs, i))
        g == IF i = 0 THEN None ELSE ParseIdOrName(After(cs, i))
    IN IF IsNone(u) \/ (i > 0 /\ IsNone(g)) THEN Reject
       ELSE [ok |-> TRUE, text |-> u[1].value \o (IF i = 0 THEN "" ELSE ":" \o g[1].value), user |-> u[1], group |-> g]

(************************** devices and cgroup rules ************************)
ParsePerms(cs) ==
    IF All(cs, {"r", "w", "m"})
    THEN Some((IF Has(cs, "r") THEN "r" ELSE "") \o (IF Has(cs, "w") THEN "w" ELSE "") \o (IF Has(cs, "m") THEN "m" ELSE ""))
    ELSE None
EvalPerms(s) == LET p == ParsePerms(Chars(s)) IN IF IsNone(p) THEN Reject ELSE [ok |-> TRUE, text |-> p[1]]
\* At most n pieces; the last one keeps further separators.
SplitN(cs, c, n) ==
    LET p == Split(cs, c)
    IN IF Len(p) <= n THEN p
       ELSE SubSeq(p, 1, n - 1) \o <<FoldLeft(LAMBDA a, b : a \o <<c>> \o b, p[n], SubSeq(p, n + 1, Len(p)))>>
IsAbsolute(cs) == Len(cs) > 0 /\ cs[1] = "/"
EvalDevice(s) ==
    LET p == SplitN(Chars(s), ":", 3)
        perms == IF Len(p) = 3 THEN ParsePerms(p[3]) ELSE Some("")
    IN IF Len(p) < 2 THEN Reject
       ELSE IF ~IsAbsolute(p[2]) \/ IsNone(perms) THEN Reject
       ELSE [ok |-> TRUE, text |-> Join(p[1]) \o ":" \o Join(p[2]) \o (IF perms[1] = "" THEN "" ELSE ":" \o perms[1]),
             host |-> Join(p[1]), container |-> Join(p[2]), perms |-> perms[1]]
ParseDeviceNumber(cs) ==
    IF cs = <<>> \/ cs = <<"*">> THEN Some("*")
    ELSE LET n == ParseU(cs, U16Max) IN IF IsNone(n) THEN None ELSE Some(Join(n[1]))
EvalCgroupRule(s) ==
    LET p == SplitN(Chars(s), " ", 3)
        perms == IF Len(p) = 3 THEN ParsePerms(p[3]) ELSE Some("")
        i == IF Len(p) < 2 THEN 0 ELSE First(p[2], ":")
    IN IF i = 0 THEN Reject
       ELSE LET major == ParseDeviceNumber(Before(p[2], i))
                minor == ParseDeviceNumber(After(p[2], i))
            IN IF p[1] \notin {<<"a">>, <<"b">>, <<"c">>} \/ IsNone(major) \/ IsNone(minor) \/ IsNone(perms) THEN Reject
               ELSE [ok |-> TRUE,
                     text |-> p[1][1] \o " " \o major[1] \o ":" \o minor[1] \o (IF perms[1] = "" THEN "" ELSE " " \o perms[1]),
                     kind |-> p[1][1], major |-> major[1], minor |-> minor[1], perms |-> perms[1]]

(****************************** platforms ***********************************)
ArchesOf(os) ==
    CASE os = "aix" -> {"ppc64"}
      [] os \in {"android", "openbsd", "windows"} -> {"386", "amd64", "arm", "arm64"}
      [] os = "darwin" -> {"amd64", "arm64"}
      [] os \in {"dragonfly", "illumos", "solaris"} -> {"amd64"}
      [] os \in {"freebsd", "netbsd", "plan9"} -> {"386", "amd64", "arm"}
      [] os = "ios" -> {"arm64"}
      [] os \in {"js", "wasip1"} -> {"wasm"}
      [] os = "linux" -> {"386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le",
                          "ppc64", "ppc64le", "riscv64", "s390x"}
      [] OTHER -> {}
Systems == {"aix", "android", "darwin", "dragonfly", "freebsd", "illumos", "ios", "js", "linux", "netbsd", "openbsd",
            "plan9", "solaris", "wasip1", "windows"}
Arches == UNION {ArchesOf(os) : os \in Systems}
VariantsOf(arch) == CASE arch = "arm" -> {"v6", "v7", "v8"} [] arch = "arm64" -> {"v8"} [] OTHER -> {}
Variants == {"v6", "v7", "v8"}
\* The systems on which an architecture is supported.
SystemList == <<"aix", "android", "darwin", "dragonfly", "freebsd", "illumos", "ios", "js", "linux", "netbsd", "openbsd",
                "plan9", "solaris", "wasip1", "windows">>
SystemsWith(arch) == SelectSeq(SystemList, LAMBDA os : arch \in ArchesOf(os))
EvalPlatform(s) ==
    LET p == SplitN(Chars(s), "/", 3)
        part(i) == IF Len(p) >= i THEN Some(Join(p[i])) ELSE None
        os == part(1)[1]
        ok == /\ os \in Systems
              /\ (Len(p) >= 2 => part(2)[1] \in ArchesOf(os))
              /\ (Len(p) >= 3 => part(3)[1] \in VariantsOf(part(2)[1]))
    IN IF ok THEN [ok |-> TRUE, text |-> s, os |-> os,
                   arch |-> IF Len(p) < 2 THEN None ELSE Some(part(2)[1] \o IF Len(p) < 3 THEN "" ELSE "/" \o part(3)[1]),
                   systems |-> IF Len(p) < 2 THEN <<>> ELSE SystemsWith(part(2)[1])]
       ELSE Reject

(*************************** network, IPC, links ****************************)
Mode(text, kind, value) == [ok |-> TRUE, text |-> text, kind |-> kind, value |-> value]
Prefixed(cs, p) == StartsWith(cs, Chars(p))
EvalNetworkMode(s) ==
    LET cs == Chars(s)
        id(n) == DropFirst(cs, n)
    IN CASE s = "none" -> Mode(s, "none", "")
         [] s = "host" -> Mode(s, "host", "")
         [] Prefixed(cs, "service:") -> IF IsIdentifier(id(8)) THEN Mode(s, "service", Join(id(8))) ELSE Reject
         [] Prefixed(cs, "container:") -> IF IsIdentifier(id(10)) THEN Mode(s, "container", Join(id(10))) ELSE Reject
         [] OTHER -> Mode(s, "other", s)
EvalIpc(s) ==
    LET cs == Chars(s)
    IN CASE s = "shareable" -> Mode(s, "shareable", "")
         [] Prefixed(cs, "service:") -> IF IsIdentifier(DropFirst(cs, 8)) THEN Mode(s, "service", Join(DropFirst(cs, 8))) ELSE Reject
         [] OTHER -> Mode(s, "other", s)
EvalLink(s) ==
    LET cs == Chars(s)
        i == First(cs, ":")
        id == IF i = 0 THEN cs ELSE Before(cs, i)
    IN IF ~IsIdentifier(id) THEN Reject
       ELSE [ok |-> TRUE, text |-> s, service |-> Join(id), alias |-> IF i = 0 THEN None ELSE Some(Join(After(cs, i)))]
EvalVolumesFrom(s) ==
    LET cs == Chars(s)
        ro == EndsWith(cs, Chars(":ro"))
        rw == EndsWith(cs, Chars(":rw"))
        src == IF ro \/ rw THEN DropLast(cs, 3) ELSE cs
        con == Prefixed(src, "container:")
        id == IF con THEN DropFirst(src, 10) ELSE src
        name == Join(id)
    IN IF ~IsIdentifier(id) THEN Reject
       ELSE [ok |-> TRUE, kind |-> IF con THEN "container" ELSE "service", name |-> name, read_only |-> ro,
             text |-> (IF con THEN "container:" ELSE "") \o name
                      \o (IF ro THEN ":ro" ELSE IF con /\ name \in {"ro", "rw"} THEN ":rw" ELSE "")]
RECURSIVE DropZeros(_)
DropZeros(cs) == IF Len(cs) > 1 /\ cs[1] = "0" THEN DropZeros(Tail(cs)) ELSE cs
ParseMacByte(cs) ==
    LET b == IF Len(cs) > 1 /\ cs[1] = "+" THEN Tail(cs) ELSE cs
        d == DropZeros(b)
    IN IF Len(b) = 0 \/ ~All(b, HexDigit) \/ Len(d) > 2 THEN None
       ELSE Some(IF Len(d) = 1 THEN HexVal(d[1]) ELSE 16 * HexVal(d[1]) + HexVal(d[2]))
TwoHex(n) == HexDigits[(n \div 16) + 1] \o HexDigits[(n % 16) + 1]
EvalMac(s) ==
    LET b == Map(ParseMacByte, Split(Chars(s), ":"))
    IN IF Len(b) # 6 \/ \E i \in 1..Len(b) : IsNone(b[i]) THEN Reject
       ELSE [ok |-> TRUE, text |-> JoinWith(Map(LAMBDA x : TwoHex(x[1]), b), ":"), bytes |-> Map(LAMBDA x : x[1], b)]

(******************************** builds ************************************)
EvalSshAuth(s) ==
    LET cs == Chars(s)
        i == First(cs, "=")
    IN IF s = "default" THEN [ok |-> TRUE, text |-> s, id |-> None, path |-> None]
       ELSE IF i <= 1 \/ i = Len(cs) THEN Reject
       ELSE [ok |-> TRUE, text |-> s, id |-> Some(Join(Before(cs, i))), path |-> Some(Join(After(cs, i)))]
EvalBuildNetwork(s) ==
    IF s = "none" THEN [ok |-> TRUE, text |-> s, id |-> None]
    ELSE IF IsIdentifier(Chars(s)) THEN [ok |-> TRUE, text |-> s, id |-> Some(s)] ELSE Reject

\* Options in order; a repeated key keeps its first place and its last value.
PutOption(opts, k, v) ==
    IF \E i \in 1..Len(opts) : opts[i][1] = k
    THEN Map(LAMBDA o : IF o[1] = k THEN <<k, v>> ELSE o, opts)
    ELSE Append(opts, <<k, v>>)
WithoutOption(opts, k) == SelectSeq(opts, LAMBDA o : o[1] # k)
ParseCacheOption(cs) ==
    LET i == First(cs, "=")
    IN IF i = 0 THEN None
       ELSE IF IsCacheOption(Before(cs, i)) /\ IsCacheOption(After(cs, i))
       THEN Some(<<Join(Before(cs, i)), Join(After(cs, i))>>) ELSE None
ViewCache(kind, value, opts) ==
    LET pairs == JoinWith(Map(LAMBDA o : "," \o o[1] \o "=" \o o[2], opts), "")
    IN [ok |-> TRUE, kind |-> kind, value |-> value, options |-> opts,
        text |-> IF kind = "other" THEN "type=" \o value \o pairs
                 ELSE IF Len(opts) = 0 THEN value ELSE "type=registry,ref=" \o value \o pairs,
        all |-> <<<<"type", IF kind = "other" THEN value ELSE "registry">>>>
                \o (IF kind = "other" THEN <<>> ELSE <<<<"ref", value>>>>) \o WithoutOption(opts, "type")]
EvalCache(s) ==
    LET cs == Chars(s)
    IN IF ~Has(cs, ",") /\ ~Prefixed(cs, "type=")
       THEN (IF EvalImageParse(s).ok THEN ViewCache("registry", s, <<>>) ELSE Reject)
       ELSE LET p == Split(cs, ",")
                items == Map(ParseCacheOption, Tail(p))
            IN IF ~Prefixed(p[1], "type=") \/ \E i \in 1..Len(items) : IsNone(items[i]) THEN Reject
               ELSE LET type == DropFirst(p[1], 5)
                        opts == FoldLeft(LAMBDA acc, o : PutOption(acc, o[1][1], o[1][2]), <<>>, items)
                        ref == SelectSeq(opts, LAMBDA o : o[1] = "ref")
                    IN IF type = Chars("registry")
                       THEN (IF Len(ref) = 0 THEN Reject
                             ELSE IF ~EvalImageParse(ref[1][2]).ok THEN Reject
                             ELSE ViewCache("registry", ref[1][2], WithoutOption(opts, "ref")))
                       ELSE IF IsCacheOption(type) THEN ViewCache("other", Join(type), opts) ELSE Reject

(***************************************************************************)
(* Build contexts: a URL or a path.  Only texts whose nature is plain are  *)
(* considered: those without a colon are paths; URLs are built from parts. *)
(***************************************************************************)
EndsInGit(path) ==
    LET p == Split(Chars(path), "/")
        last == p[Len(p)]
        i == LastPos(last, ".")
    IN i > 1 /\ Join(After(last, i)) \in {"git", "GIT", "Git"}
EvalContextUrl(u) ==
    LET text == u.scheme \o "://" \o u.host \o u.path \o (IF IsNone(u.fragment) THEN "" ELSE "#" \o u.fragment[1])
        git == u.scheme \in {"http", "https"} /\ EndsInGit(u.path)
        frag == IF IsNone(u.fragment) THEN <<>> ELSE Chars(u.fragment[1])
        i == First(frag, ":")
    IN [ok |-> TRUE, text |-> text, kind |-> "url", git |-> git,
        branch |-> IF ~git \/ IsNone(u.fragment) THEN None ELSE Some(Join(IF i = 0 THEN frag ELSE Before(frag, i))),
        subdir |-> IF ~git \/ i = 0 THEN None ELSE Some(Join(After(frag, i)))]
EvalContextPath(s) == [ok |-> TRUE, text |-> s, kind |-> "path", git |-> FALSE, branch |-> None, subdir |-> None]

RefOps == {"id.parse", "user.parse", "perms.parse", "device.parse", "cgroup.parse", "platform.parse", "netmode.parse",
           "ipc.parse", "link.parse", "volumesfrom.parse", "mac.parse", "ssh.parse", "buildnet.parse", "cache.parse",
           "context.path"}
EvalRef(op, s) ==
    CASE op = "id.parse" -> EvalIdOrName(s)
      [] op = "user.parse" -> EvalUser(s)
      [] op = "perms.parse" -> EvalPerms(s)
      [] op = "device.parse" -> EvalDevice(s)
      [] op = "cgroup.parse" -> EvalCgroupRule(s)
      [] op = "platform.parse" -> EvalPlatform(s)
      [] op = "netmode.parse" -> EvalNetworkMode(s)
      [] op = "ipc.parse" -> EvalIpc(s)
      [] op = "link.parse" -> EvalLink(s)
      [] op = "volumesfrom.parse" -> EvalVolumesFrom(s)
      [] op = "mac.parse" -> EvalMac(s)
      [] op = "ssh.parse" -> EvalSshAuth(s)
      [] op = "buildnet.parse" -> EvalBuildNetwork(s)
      [] op = "cache.parse" -> EvalCache(s)
      [] op = "context.path" -> EvalContextPath(s)
=============================================================================
