------------------------------ MODULE Anything ------------------------------
(***************************************************************************)
(* Whatever anyone may hand to the library: any text in a text field, any  *)
(* bytes as a document, any value anywhere in a document.  There is always *)
(* an answer, for reading it and for everything done with what was read.   *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Kind, Focus, Part, Parts
VARIABLES typed, place, value
vars == <<typed, place, value>>
T == Tier = "thorough"

Times(s, n) == Join([i \in 1..n |-> s])
\* Words of all the languages of fields, the limits of numbers, and characters of all sizes.
Words1 == <<"a", "Z", "0", "1", "9", "-", "_", ".", ":", "/", "@", "=", ",", " ", "\t", "\n", "$", "[", "]", "#", "~", "+", "*", "x-", "é", "日本",
           "%", "é", "::", "./", "../", "//", "65535", "65536", "18446744073709551615", "18446744073709551616", "-1", "1e999", "-0", ".inf", "NaN",
           "h", "us", "m", "kb", "ro", "rw,z", "tcp", "service:", "container:", "type=", "registry", ",ref=", "sha256:", "linux/", "amd64", "c ", "rwm",
           "127.0.0.1", "[::1]", "https://h/", "git@", ".git", "default", "true", "null", "<<", "&a", "!t", "CMD-SHELL", Times("a", 300), Times("9", 60),
           Times("é", 130), Times("/", 90), Times(":", 70)>>
\* Pieces of YAML, with bytes which are not text (U+E0xx stands for one byte).
Yaml1 == <<"services", ": ", ":", "\n", "\n  ", "\n    ", "- ", "{", "}", "[", "]", ", ", "a", "x-b", "&a ", "*a", "<<", "!t ", "!!int ", "!!binary ", "? ", "| ", ">-",
          "\"", "'", "\\", "---", "...", "#", "%YAML 1.2", "~", "0x7f", "1e5", "-0", "image", "\t", "\r", "@", "`", "é", "", "", "", "",
          "﻿", "\"\\u0000\"", "\"\\ud800\"", Times("[", 140), Times("{a: ", 140), Times("- ", 140), "{a: ", "[[[[[[[[[[[[", "{{{{{{{{"  >>
Starts1 == <<"", "services:\n  a:\n    ", "services: {}\nx-a: ", "name: ">>
Pieces1 == IF Kind = "text" THEN Words1 ELSE Yaml1

Odd == LET deep(n) == FoldLeft(LAMBDA acc, i : IF i % 2 = 0 THEN Lst(<<acc>>) ELSE Dict(<<Key("a", acc)>>), Nil, [i \in 1..n |-> i])
           tag(s, x) == Node("g", s, <<x>>)
           keyed(x, y) == Node("n", "", <<x, y>>)
       IN <<deep(20), deep(45), tag("!t", Txt("a")), tag("!t", Nil), tag("!t", Dict(<<Key("a", Num("1"))>>)), tag("!t", Lst(<<>>)), Lst(<<tag("!u", Num("5"))>>),
            keyed(Num("5"), Txt("a")), keyed(Nil, Nil), keyed(Bool(TRUE), Num("1")), keyed(Lst(<<>>), Nil), keyed(Dict(<<>>), Nil), keyed(Flo(".nan"), Nil),
            keyed(tag("!t", Txt("a")), Nil), Flo(".nan"), Flo(".inf"), Flo("-.inf"), Flo("-0.0"), Flo("1e+300"), Num("-9223372036854775808"), Num("9223372036854775808"),
            Txt(Times("x", 3000)), Txt(Times("é", 300)), Txt("\t\n"), Dict(<<Key("<<", Dict(<<Key("<<", Nil)>>))>>), Dict(<<Key("<<", Lst(<<>>))>>), Dict(<<Key("", Nil)>>),
            Lst(Texts([i \in 1..60 |-> ToString(i)])), Dict([i \in 1..60 |-> Key(ToString(i), Num(ToString(i)))])>>
ValuesOf(s) == {s[i] : i \in 1..Len(s)}
Leafs == {"any", "str", "path", "bool", "u64", "u32", "u16", "percent", "weight", "oom", "value", "strnum", "micros", "duration", "cpus", "bytes", "limit.u32", "limit.u64",
          "limit.bytes", "uid", "id", "user", "count", "range", "expose", "port", "name", "identifier", "hostname", "ip", "ipv4", "ipv6", "ipnet", "mac", "image", "platform",
          "abspath", "hostpath", "link", "volumesfrom", "device", "cgrouprule", "netmode", "ipc", "ssh", "cache", "context", "buildnet", "cpuset", "volume"}
Owned == {"network", "volume", "config", "secret", "mount", "healthcheck", "test", "extra_hosts", "contexts"}
Pool == ValuesOf(Odd) \cup ValuesOf(Generic) \cup UNION {ValuesOf(GoodLeaf(a) \o BadLeaf(a)) : a \in Leafs}
        \cup UNION {ValuesOf(Good(Own(a)) \o Bad(Own(a))) : a \in Owned}
\* The pool in some order, and what this process takes of it.
Mine == LET all == SetToSeq(Pool) IN SelectSeq([i \in 1..Len(all) |-> IF i % Parts = Part THEN all[i] ELSE Nil], LAMBDA x : x # Nil)
Around1(i) == IF T THEN {"", "list", "map", "two"} ELSE CASE i % 6 = 0 -> {"", "list"} [] i % 6 = 3 -> {"", "map"} [] OTHER -> {""}
Wrapped(how, x) == CASE how = "" -> x [] how = "list" -> Lst(<<x>>) [] how = "map" -> Dict(<<Key("a", x)>>) [] how = "two" -> Lst(<<Dict(<<Key("a", x)>>), x>>)
Setting(a) == {SectionOf(a).fs[i].f : i \in 1..Len(SectionOf(a).fs)} \cup (IF SectionOf(a).ext THEN {"x-any"} ELSE {})
WordDepth == IF T THEN 3 ELSE 2
Far == Parts = 0 \* A random walk, in TLC's simulation.
Deepest == IF Far THEN 14 ELSE IF Kind = "text" THEN WordDepth ELSE 3

Init == /\ value = Nil
        /\ IF Kind = "tree" THEN /\ place \in UNION {{<<a, f>> : f \in Setting(a)} : a \in Focus} /\ typed = <<"">>
           ELSE /\ place \in {<<Starts1[i], "">> : i \in 1..(IF Kind = "text" THEN 1 ELSE Len(Starts1))} /\ typed = <<>>
Type == /\ Kind \in {"text", "yaml"} /\ Len(typed) < Deepest /\ UNCHANGED <<place, value>>
        /\ \E i \in 1..Len(Pieces1) : (Len(typed) = 0 /\ ~Far => i % Parts = Part) /\ typed' = Append(typed, Pieces1[i])
Put1 == /\ Kind = "tree" /\ value = Nil /\ UNCHANGED place
        /\ \E i \in 1..Len(Mine) : value' = Mine[i] /\ \E how \in Around1(i) : typed' = <<how>>
Next == Type \/ Put1

Doc == LET few == Minimal(place[1])
       IN Placed(place[1], [few EXCEPT !.c = Append(SelectSeq(@, LAMBDA e : e.k # place[2]), Key(place[2], Wrapped(typed[1], value)))])
Input1 == CASE Kind = "tree" -> [tree |-> Doc] [] Kind = "text" -> [s |-> Join(typed)] [] Kind = "yaml" -> [s |-> place[1] \o Join(typed)]
                 [] Kind = "cpus" -> [s |-> "0-18446744073709551615"]
Emit == PrintT("CASE " \o ToJson([op |-> "total." \o Kind, in |-> Input1, out |-> [answers |-> TRUE]]))
=============================================================================
