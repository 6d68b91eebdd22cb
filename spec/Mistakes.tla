------------------------------ MODULE Mistakes ------------------------------
(***************************************************************************)
(* A user has a well-formed text (or nearly) and mistypes it: a character  *)
(* left out, doubled, held down for long, replaced or preceded by a        *)
(* look-alike, in the other case, or swapped with the next; or gets two    *)
(* texts on one line.                                                      *)
(***************************************************************************)
EXTENDS Alphabets, Eval, Json
CONSTANTS Tier, Languages
VARIABLES lang, txt, slips
T == Tier = "thorough"

Started(op) ==
    CASE op = "key.project" -> <<"proj", "a-1_b", "0">>
      [] op = "key.identifier" -> <<"web", "db.1", "A_b-c">>
      [] op = "key.map" -> <<"b.key", "A k", "0">>
      [] op = "key.extension" -> <<"x-a", "x-", "x-A b">>
      [] op = "key.hostname" -> <<"host", "a.example.com", "X-1", "1.2">>
      [] op = "key.ulimit" -> <<"nofile", "core">>
      [] op = "key.user" -> <<"app", "_a-1", "m$", "Z9">>
      [] op = "key.cacheoption" -> <<"mode", "a/b:c">>
      [] op = "image.parse" -> <<"redis", "redis:5", "quay.io/a/b:1.0_x", "a@sha256:0f1", "localhost:5000/img:v-1", "a__b/c-d.e@x+y.z_w:9=", "docker.io:80/a">>
      [] op = "image.name" -> <<"a/b", "quay.io:80/a", "a__b-c.d">>
      [] op = "image.tag" -> <<"latest", "1.0_x-Y">>
      [] op = "image.digest" -> <<"sha256:0f1", "a+b.c:9=Z">>
      [] op = "range.parse" -> <<"8080", "3000-3005", "7-7", "65535">>
      [] op = "expose.parse" -> <<"3000", "8000/udp", "3000-3005", "1-2/tcp">>
      [] op = "ranges.parse" -> <<"80", "80-81:90-91", "1:2">>
      [] op = "port.parse" -> <<"3000", "8000:80", "127.0.0.1:8001:81/udp", "[::1]:5:5", "127.0.0.1::90", "9-10:8-9", "[::ffff:1.2.3.4]:1-2:3-4/x">>
      [] op = "port.expand" -> <<"3000", "8000:80", "127.0.0.1:8001:81/udp", "9-10:8-9", "8-9", "[::1]::5">>
      [] op = "source.parse" -> <<"vol", "./src", "/srv", "..", "../a">>
      [] op \in {"volume.parse", "volume.expand"} -> <<"/data", "vol:/data", "./src:/app:ro", "/a:/b:rw,z", "vol:/d:ro">>
      [] op = "duration.parse" -> <<"1m30s", "2h", "40us", "5ms", "18446744073709551615s", "1h2m3s4ms5us">>
      [] op = "bytes.parse" -> <<"64m", "1gb", "300", "5K", "10Kb", "7b", "18446744073709551615">>
      [] op = "limit.u32" -> <<"50", "-1", "4294967295">>
      [] op = "limit.u64" -> <<"50", "-1", "18446744073709551615">>
      [] op = "limit.bytes" -> <<"2g", "-1", "0b", "18446744073709551615b">>
      [] op = "cpus.parse" -> <<"0-3", "0,1", "5,2-4,1", "7,", "31", "8-10,9-12", "0-300,302-400">>
      [] op = "id.parse" -> <<"mail", "1000", "4294967295", "a$">>
      [] op = "user.parse" -> <<"app", "1000:1000", "app:staff", "12:mail$">>
      [] op = "perms.parse" -> <<"r", "rwm", "mw">>
      [] op = "device.parse" -> <<"/dev/a:/dev/b", "/dev/sda:/dev/xvda:rwm", "x:/y:m">>
      [] op = "cgroup.parse" -> <<"c 1:3 mr", "a 7:* rmw", "b *:5 r">>
      [] op = "netmode.parse" -> <<"host", "none", "service:web", "container:c", "bridge">>
      [] op = "ipc.parse" -> <<"shareable", "service:web", "host">>
      [] op = "link.parse" -> <<"db", "db:database">>
      [] op = "volumesfrom.parse" -> <<"web", "web:ro", "container:c1:rw", "container:c1">>
      [] op = "mac.parse" -> <<"92:d0:c6:0a:29:33", "A:B:0:1:2:f">>
      [] op = "ssh.parse" -> <<"default", "proj=~/.ssh/p.pem", "k=v=w">>
      [] op = "buildnet.parse" -> <<"none", "net1">>
      [] op = "cache.parse" -> <<"alpine", "type=local,src=x", "type=registry,ref=user/app:cache", "type=gha", "type=registry,ref=a,mode=max">>
      [] op = "context.path" -> <<".", "./dir", "rel/x">>
      [] op = "platform.parse" -> <<"linux/amd64", "linux", "linux/arm64/v8", "windows/arm", "linux/arm/v7">>
      [] op \in {"abspath.parse", "hostpath.parse"} -> <<"/data", "/", "/a/../d", "./src", "..", "../a", ".">>
      [] op \in {"value.parse", "value.text"} -> <<"12", "-3", "1.5", "true", "text", "1e5", "NaN", "inf">>

UpperOf == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerOf == "abcdefghijklmnopqrstuvwxyz"
Letters == Chars(LowerOf)
Capitals == Chars(UpperOf)
Flip(c) ==
    IF c \in Lower THEN Capitals[First(Letters, c)] ELSE IF c \in Upper THEN Letters[First(Capitals, c)]
    ELSE CASE c = "-" -> "_" [] c = "_" -> "-" [] c = ":" -> ";" [] c = "/" -> "\\" [] c = "." -> "," [] c = "=" -> ":" [] c = " " -> "\t"
           [] c = "," -> "." [] c = "+" -> "-" [] OTHER -> "é"
\* Characters that some test for letters, digits, spaces or case takes for what they are not.
Lookalikes == {"é", "ß", "İ", "ſ", "K", "Ａ", "ａ", "１", "٣", "²", "½", "Ⅷ", "ʰ", "ª", "́", " ", "　", "​", "﻿", "", "", "∕", "：", "－", "−", "．",
               "\t", "\n", "\r", "\f", " ", "\"", "'", "\\", "0", "a", "Z", "x", "-", "_", ".", "/", ":", "+", "=", ",", "@", "#", "~", "*", "%", "$", "[", "]"}
\* How long a key is held down.
Held == {2, 7, 15, 16, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257} \cup (IF T THEN 258..262 \cup {511, 512, 1000} ELSE {512})
cs == Chars(txt)
Insert(i, c) == Join(SubSeq(cs, 1, i - 1)) \o c \o Join(SubSeq(cs, i, Len(cs)))
Replace(i, c) == Join(SubSeq(cs, 1, i - 1)) \o c \o Join(SubSeq(cs, i + 1, Len(cs)))
Swap(i) == Join(SubSeq(cs, 1, i - 1)) \o cs[i + 1] \o cs[i] \o Join(SubSeq(cs, i + 2, Len(cs)))

Init == lang \in Languages /\ slips = 0 /\ \E i \in 1..Len(Started(lang)) : txt = Started(lang)[i]
Slip ==
    \/ \E i \in 1..Len(cs) + 1, c \in Lookalikes : txt' = Insert(i, c)
    \/ \E i \in 1..Len(cs) : \E c \in Lookalikes : txt' = Replace(i, c)
    \/ \E i \in 1..Len(cs) : txt' = Replace(i, "") \/ txt' = Replace(i, Flip(cs[i])) \/ txt' = Insert(i, cs[i])
    \/ \E i \in 1..Len(cs) - 1 : txt' = Swap(i)
    \/ \E i \in 1..Len(cs), k \in Held : txt' = Insert(i, Rep(cs[i], k))
    \/ \E i \in 1..Len(Started(lang)), between \in {"", " ", "\n", ",", ":", "/", "-"} : txt' = txt \o between \o Started(lang)[i]
\* A second, smaller, slip.
Again ==
    \/ \E i \in 1..Len(cs) : txt' = Replace(i, "") \/ txt' = Replace(i, Flip(cs[i])) \/ txt' = Insert(i, cs[i])
    \/ \E i \in 1..Len(cs) - 1 : txt' = Swap(i)
Next == /\ UNCHANGED lang /\ slips' = slips + 1
        /\ \/ slips = 0 /\ Slip
           \/ slips = 1 /\ Len(txt) < (IF T THEN 40 ELSE 10) /\ Again

Verdict == EvalText(lang, txt)
Emit == Tractable(lang, txt) =>
        LET v == Verdict
        IN /\ Faithful(lang) /\ v.ok => EvalText(lang, v.text) = v
           /\ PrintT("CASE " \o ToJson([op |-> lang, in |-> [s |-> txt], out |-> v]))
=============================================================================
