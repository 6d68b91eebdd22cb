----------------------------- MODULE Alphabets -----------------------------
(***************************************************************************)
(* The token alphabets from which inputs are typed, one per language.      *)
(* "fine" alphabets are single characters, one or two representatives of   *)
(* every character class the grammar (or an off-by-one version of it)      *)
(* could distinguish; the "ascii" alphabet is every printable character,   *)
(* typed into a place where the class of characters allowed is specific to *)
(* the language.  "coarse" alphabets are words, so that deep, almost  *)
(* well-formed texts and numeric boundaries are reached.                   *)
(***************************************************************************)
EXTENDS Keys

Rep(c, n) == Join([i \in 1..n |-> c])

Fine(op) ==
    CASE op = "image.parse"  -> {"a", "A", "0", ".", "-", ":", "/", "@"}
      [] op = "image.name"   -> {"a", "A", ".", "_", "-", ":", "/"}
      [] op = "image.tag"    -> {"a", "z", "A", "Z", "0", "9", ".", "_", "-", ":", "/", "@", "+", "é", " "}
      [] op = "image.digest" -> {"a", "Z", "9", ".", "-", "+", ":", "=", "/"}
      [] op = "key.project" -> {"a", "z", "A", "0", "9", "_", "-", ".", "é", " ", "`", "{", "/", ":", "\n"}
      [] op = "key.identifier" -> {"a", "z", "A", "Z", "0", "9", "_", "-", ".", "é", " ", "@", "[", "`", "{", "/", ":", "\n"}
      [] op = "key.map" -> {"a", "0", "=", " ", "\n", "\r", "\t", "é", "-", "."}
      [] op = "key.extension" -> {"x", "X", "-", "a", "0", "\n", " ", "é", "."}
      [] op = "key.hostname" -> {"a", "Z", "0", "9", "-", ".", "_", "é", " ", "\n"}
      [] op = "key.ulimit" -> {"a", "z", "A", "0", "_", "-", "`", "{", "é", " ", "\n"}
      [] op = "key.user" -> {"a", "Z", "0", "9", "-", "_", "$", ".", "é", " ", ":", "\n"}
      [] op = "key.cacheoption" -> {"a", "=", ",", "-", "\t", "\n", "\f", "\r"} \cup WhiteSpace \cup {"é"}
      [] op = "range.parse" -> {"0", "1", "9", "-", "+", " ", "a", ":"}
      [] op = "expose.parse" -> {"1", "2", "-", "/", "t", ":", "+"}
      [] op = "ranges.parse" -> {"1", "2", "-", ":", "+", "/"}
      [] op = "port.parse" -> {"1", "2", "-", ":", "/", "t", "[", "]", "."}
      [] op = "port.expand" -> {"1", "3", "-", ":", "/", "t"}
      [] op = "duration.parse" -> {"0", "1", "9", "h", "m", "s", "u", "n", "-", "+", ".", " "}
      [] op = "bytes.parse" -> {"0", "1", "9", "b", "B", "k", "K", "m", "M", "g", "G", "-", "+", "i", " "}
      [] op \in {"limit.u32", "limit.u64", "limit.bytes"} -> {"0", "1", "2", "-", "+", "k", "b", " "}
      [] op = "cpus.parse" -> {"0", "1", "2", "3", "9", "-", ",", "+", " "}
      [] op = "id.parse" -> {"0", "9", "a", "Z", "+", "-", "_", "$", ":", "."}
      [] op = "user.parse" -> {"0", "9", "a", "+", "-", "_", "$", ":"}
      [] op = "perms.parse" -> {"r", "w", "m", "x", "R", " ", ":"}
      [] op = "device.parse" -> {"/", ":", "a", ".", "r", "w", "m"}
      [] op = "cgroup.parse" -> {"a", "b", "c", "d", " ", "1", "*", ":", "r"}
      [] op = "netmode.parse" -> {"none", "host", "service", "container", ":", "a", "-", "/", "x"}
      [] op = "ipc.parse" -> {"shareable", "service", "host", ":", "a", "-", "/", "x"}
      [] op = "link.parse" -> {"a", "Z", "0", ":", "-", ".", "_", "/", " ", "é"}
      [] op = "volumesfrom.parse" -> {"container", "r", "o", "w", ":", "a", "-", "/"}
      [] op = "mac.parse" -> {"0", "a", "F", "g", "+", ":"}
      [] op = "ssh.parse" -> {"default", "a", "=", "/", " ", ":", "é"}
      [] op = "buildnet.parse" -> {"none", "n", "o", "0", "-", ".", "_", "/", ":", "é"}
      [] op = "cache.parse" -> {"type=", "registry", ",", "ref=", "=", "a", "k", " ", "/", "é"}
      [] op = "context.path" -> {".", "/", "a", "-", " ", "#", "é", "?", "%", "git"}
      [] op \in {"abspath.parse", "hostpath.parse", "source.parse"} -> {".", "/", "a", "Z", "0", "-", "_", ":", "~", "é", " "}
      [] op \in {"volume.parse", "volume.expand"} -> {".", "/", ":", "a", ",", "r", "o", "z"}
      [] op \in {"value.parse", "value.text"} -> {"0", "1", "5", "9", "-", "+", ".", "e", "E", "a", " "}
      [] OTHER -> {}

Coarse(op) ==
    CASE op = "image.parse" ->
            {"quay.io", "docker.io", "ab", "x-y", "a__b", ":", "/", "@", "65535", "65536", "latest",
             "sha256:0aF", "V1.0_x"}
      [] op = "image.name" -> {"quay.io", "ab", "x--y", "a__b", "a___b", ".", ":", "/", "0", "65535", "65536"}
      [] op = "image.tag" -> {Rep("a", 126), Rep("Z", 64), "0", ".", "-", "_", "é"}
      [] op = "image.digest" -> {"sha256", "sha512", "+", "b64u", ":", Rep("0f", 32), "=", "_", "A"}
      [] op = "key.user" -> {Rep("a", 31), Rep("b", 30), "a", "0", "$", "-", "é"}
      [] op = "key.hostname" -> {Rep("a", 63), "b-c", ".", "-"}
      [] op = "key.extension" -> {"x-", "x", "a", "\n", "x--"}
      [] op = "range.parse" -> {"0", "80", "65535", "65536", "65534", "443", "-", "+", "00"}
      [] op = "expose.parse" -> {"0", "80", "90", "65535", "65536", "-", "/", "tcp", "udp", "TCP", "x"}
      [] op = "ranges.parse" -> {"0", "80", "90", "65535", "65534", "1", "-", ":", "65536"}
      [] op = "port.parse" -> {"80", "8080", "90", "8090", "65535", "65536", "-", ":", "/", "tcp", "udp", "127.0.0.1", "::", "[::1]", "2001:db8"}
      [] op = "duration.parse" -> {"0", "1", "60", "5400", "999", "1000", "18446744073709551615", "18446744073709551616",
                                   "5124095576030431", "5124095576030432", "h", "m", "s", "ms", "us"}
      [] op = "bytes.parse" -> {"0", "007", "18446744073709551615", "18446744073709551616", "18446744073", "18446744074",
                                "b", "kb", "mb", "gb", "k", "m", "g", "KB", "-1", "+"}
      [] op \in {"limit.u32", "limit.u64", "limit.bytes"} ->
            {"0", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "kb", "g", "-1", "-", "+"}
      [] op = "cpus.parse" -> {"0", "1", "2", "3", "5", "9", "10", "63", "64", "257", "1500", "18446744073709551614", "18446744073709551615",
                               "18446744073709551616", "-", ","}
      [] op = "id.parse" -> {"0", "4294967295", "4294967296", "root", "$", "+", "-", Rep("a", 30)}
      [] op = "user.parse" -> {"0", "4294967295", "4294967296", "root", "$", "-", ":", Rep("a", 32)}
      [] op = "device.parse" -> {"/dev/a", "b", ":", "rwm", "wr", "mm", "x", "/"}
      [] op = "cgroup.parse" -> {"a ", "c ", "b", " ", "65535", "65536", "0", "*", ":", "rwm", "mr", "x"}
      [] op = "netmode.parse" -> {"none", "host", "service:", "container:", "bridge", "a", "None", "", " "}
      [] op = "ipc.parse" -> {"shareable", "service:", "container:", "host", "a", " ", "private"}
      [] op = "link.parse" -> {"db", "my-db.1", ":", "alias", "-", " "}
      [] op = "volumesfrom.parse" -> {"container:", "ro", "rw", ":ro", ":rw", ":", "a", "RO", "-"}
      [] op = "mac.parse" -> {"00", "0a", "ff", "F", "001", "100", "00ff", "+1", ":", "aa:bb:cc:dd", "-"}
      [] op = "ssh.parse" -> {"default", "id", "=", "/p/q", "./x=y"}
      [] op = "buildnet.parse" -> {"none", "host", "None", "-", "a_b"}
      [] op = "cache.parse" -> {"type=", "registry", "gha", ",ref=", "quay.io/a:t", ",k=v", ",k=w", ",type=x", ",", "k", "bad image", "A"}
      [] op = "port.expand" -> {"0", "10", "20", "110", "120", "65535", "-", ":", "/", "udp", "127.0.0.1", "[::1]"}
      [] op \in {"abspath.parse", "hostpath.parse", "source.parse"} -> {"/", ".", "..", "...", "ab", ".c", "./", "../"}
      [] op \in {"volume.parse", "volume.expand"} -> {"./s", "/", "/t", "data", "..", ".x", ":", "ro", "rw", "z", "Z", ",", "RO"}
      [] op = "value.parse" -> {"0", "1", "00", "4294967295", "4294967296", "2147483648", "9223372036854775807", "9223372036854775808",
                                "18446744073709551615", "18446744073709551616", "99999999", "-", "+", ".", "e", "E300", "inf", "Infinity", "nan", "true", "False"}
      [] op = "value.text" -> {"0", "10", "-", "+", "1.5", "e5", "inf", "NaN", "true", "text"}
      [] OTHER -> {}

Ascii == {
    " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2",
    "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E",
    "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X",
    "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k",
    "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~"}
\* What stands around the characters typed.
Around(op) ==
    CASE op = "key.extension" -> <<"x-", "">>
      [] op = "image.digest" -> <<"a", ":0">>
      [] op = "image.parse" -> <<"quay.io/a", "b:t">>
      [] op = "port.parse" -> <<"1", "">>
      [] op = "platform.parse" -> <<"linux/arm", "">>
      [] op = "duration.parse" -> <<"1", "2s">>
      [] op = "bytes.parse" -> <<"1", "">>
      [] op = "cpus.parse" -> <<"1", "3">>
      [] op = "user.parse" -> <<"a", "b">>
      [] op = "perms.parse" -> <<"r", "">>
      [] op = "device.parse" -> <<"/a", "/b:r">>
      [] op = "cgroup.parse" -> <<"c 1", "2 r">>
      [] op = "mac.parse" -> <<"0:1:2:3:4", "">>
      [] op = "cache.parse" -> <<"type=a,b", "c">>
      [] op = "netmode.parse" -> <<"service:", "">>
      [] op = "ipc.parse" -> <<"service:", "">>
      [] op = "volumesfrom.parse" -> <<"container:a", "o">>
      [] op = "volume.parse" -> <<"d:/x:r", "">>
      [] op = "volume.expand" -> <<"a", "b:/x">>
      [] op \in {"value.parse", "value.text"} -> <<"1", "2">>
      [] OTHER -> <<"", "">>
\* Words typed into a well-formed text, to reach the depths of its grammar.
InnerAround(op) ==
    CASE op = "volume.parse" -> <<"d:/x:", "">>
      [] op = "volume.expand" -> <<"./d:/x:", "">>
      [] op = "device.parse" -> <<"/a:/b:", "">>
      [] op = "cgroup.parse" -> <<"c ", " rw">>
      [] op = "cache.parse" -> <<"type=registry,ref=a", "">>
      [] op = "duration.parse" -> <<"1h", "">>
      [] op = "cpus.parse" -> <<"3-5,", "">>
      [] op = "port.parse" -> <<"127.0.0.1:", ":80-82">>
      [] op = "port.expand" -> <<"80-82:", "">>
      [] op = "image.parse" -> <<"quay.io/a/b", "">>
      [] op = "user.parse" -> <<"10:", "">>
      [] op = "mac.parse" -> <<"a:", ":0:1:2">>
      [] op = "volumesfrom.parse" -> <<"container:", "">>
      [] op = "link.parse" -> <<"db:", "">>
      [] OTHER -> <<"", "">>
Inner(op) ==
    CASE op \in {"volume.parse", "volume.expand"} -> {"ro", "rw", "z", "Z", ",", "RO", " ", "nocopy"}
      [] op = "device.parse" -> {"r", "w", "m", "R", "x", ":"}
      [] op = "cgroup.parse" -> {"1", "0", "65535", "65536", "*", ":", " "}
      [] op = "cache.parse" -> {",", "=", "k", "l", "ref", "type", "ref=b", "é"}
      [] op = "duration.parse" -> {"1", "59", "60", "h", "m", "s", "ms", "us", "0"}
      [] op = "cpus.parse" -> {"0", "2", "4", "6", "7", "-", ","}
      [] op = "port.parse" -> {"80", "82", "90-92", "92", "-", ":", ""}
      [] op = "port.expand" -> {"80", "82", "1", "3", "-", "/udp", "/"}
      [] op = "image.parse" -> {":", "@", "/", "a", "5000", "sha256:", Rep("0f", 32), "v1"}
      [] op = "user.parse" -> {"0", "4294967295", "4294967296", "a", "$", ":"}
      [] op = "mac.parse" -> {"0", "f", "ff", "1ff", ":", "+", "g"}
      [] op = "volumesfrom.parse" -> {"a", ":", "ro", "rw", "container", "-"}
      [] op = "link.parse" -> {"a", ":", "b.c", " ", "/"}
      [] OTHER -> {}
InnerDepth(op, tier) ==
    IF Inner(op) = {} THEN 0
    ELSE (IF op \in {"volume.parse", "volume.expand"} THEN 4 ELSE 4) + (IF tier = "thorough" THEN 1 ELSE 0)
AsciiDepth(op) ==
    CASE op \in Kinds \cup {"image.tag", "image.digest", "image.parse", "image.name"} -> 2
      [] op \in {"port.parse", "range.parse", "expose.parse", "platform.parse", "duration.parse", "bytes.parse",
                 "cpus.parse", "id.parse", "user.parse", "perms.parse", "device.parse", "cgroup.parse", "mac.parse",
                 "cache.parse", "netmode.parse", "ipc.parse", "volumesfrom.parse", "link.parse", "ssh.parse",
                 "buildnet.parse", "abspath.parse", "hostpath.parse", "source.parse", "volume.parse"} -> 2
      [] op \in {"limit.u32", "limit.u64", "limit.bytes"} -> 1
      [] op \in {"value.parse", "value.text"} -> 2
      [] OTHER -> 0

\* Longest typed input, in tokens, per language and effort tier.
FineDepth(op, tier) ==
    LET t == tier = "thorough"
    IN CASE op = "image.parse"  -> IF t THEN 6 ELSE 4
         [] op = "image.name"   -> IF t THEN 6 ELSE 5
         [] op = "image.tag"    -> IF t THEN 5 ELSE 3
         [] op = "image.digest" -> IF t THEN 6 ELSE 4
         [] op \in Kinds -> IF t THEN 4 ELSE 3
         [] op \in {"range.parse", "ranges.parse"} -> IF t THEN 6 ELSE 4
         [] op \in {"expose.parse", "port.parse", "port.expand"} -> IF t THEN 6 ELSE 4
         [] op \in {"mac.parse", "perms.parse"} -> IF t THEN 6 ELSE 4
         [] op \in {"duration.parse", "cpus.parse", "cgroup.parse", "device.parse", "netmode.parse", "ipc.parse",
                    "volumesfrom.parse", "user.parse"} -> IF t THEN 5 ELSE 4
         [] op \in {"bytes.parse", "limit.u32", "limit.u64", "limit.bytes", "id.parse", "link.parse", "ssh.parse", "buildnet.parse",
                    "cache.parse", "context.path"} -> IF t THEN 4 ELSE 3
         [] op \in {"abspath.parse", "hostpath.parse", "source.parse", "volume.parse", "volume.expand"} -> IF t THEN 5 ELSE 4
         [] op = "value.parse" -> IF t THEN 6 ELSE 4
         [] op = "value.text" -> IF t THEN 4 ELSE 3
         [] OTHER -> 0
CoarseDepth(op, tier) ==
    LET t == tier = "thorough"
    IN CASE op = "image.parse"  -> IF t THEN 5 ELSE 4
         [] op = "image.name"   -> IF t THEN 5 ELSE 4
         [] op = "image.tag"    -> IF t THEN 4 ELSE 3
         [] op = "image.digest" -> IF t THEN 6 ELSE 4
         [] op \in Kinds -> IF t THEN 6 ELSE 4
         [] op \in {"range.parse", "ranges.parse"} -> IF t THEN 6 ELSE 4
         [] op \in {"expose.parse", "port.parse"} -> IF t THEN 5 ELSE 4
         [] op = "port.expand" -> IF t THEN 6 ELSE 4
         [] op \in {"duration.parse", "cpus.parse", "cgroup.parse", "cache.parse"} -> IF t THEN 5 ELSE 4
         [] op \in {"bytes.parse", "limit.u32", "limit.u64", "limit.bytes", "id.parse"} -> IF t THEN 4 ELSE 3
         [] op \in {"user.parse", "device.parse", "netmode.parse", "ipc.parse", "link.parse", "volumesfrom.parse", "ssh.parse",
                    "buildnet.parse"} -> IF t THEN 5 ELSE 4
         [] op = "mac.parse" -> IF t THEN 7 ELSE 5
         [] op \in {"abspath.parse", "hostpath.parse", "source.parse"} -> IF t THEN 6 ELSE 4
         [] op \in {"volume.parse", "volume.expand"} -> IF t THEN 5 ELSE 4
         [] op = "value.parse" -> IF t THEN 4 ELSE 3
         [] op = "value.text" -> IF t THEN 4 ELSE 3
         [] OTHER -> 0
=============================================================================
