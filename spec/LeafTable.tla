------------------------------ MODULE LeafTable ------------------------------
(***************************************************************************)
(* Any scalar (or anything else) where one of the scalar types is wanted:  *)
(* numbers around every limit, the texts that spell them in all kinds of   *)
(* ways, and what every other type takes or refuses.                       *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus
VARIABLES leaf, node
T == Tier = "thorough"

Numbers == <<"0", "1", "2", "3", "5", "7", "9", "10", "11", "12", "50", "63", "64", "65", "80", "99", "100", "101", "127", "128", "129", "255", "256",
             "257", "999", "1000", "1001", "1024", "1500", "3600", "8080", "32767", "32768", "65534", "65535", "65536", "65537", "99999", "1000000",
             "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "9007199254740993", "9223372036854775806",
             "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615">>
Negative == <<"1", "2", "3", "10", "127", "128", "129", "255", "256", "999", "1000", "1001", "32768", "32769", "65535", "2147483648", "2147483649",
              "4294967295", "4294967296", "9223372036854775807", "9223372036854775808">>
Spellings(n) == <<n, "0" \o n, "00" \o n, "+" \o n, "-" \o n, "-0" \o n, "+0" \o n, "--" \o n, "- " \o n, " " \o n, n \o " ", n \o ".", n \o ".0", n \o ".5", n \o "e1", "." \o n,
                  n \o "_0", n \o "u", "0x" \o n, n \o "\n", "\t" \o n, n \o "-", n \o ":", n \o ",", n \o "b", n \o "k", n \o "s", n \o "h", n \o "m", n \o "us", n \o "kB", n \o "Kb",
                  n \o "-" \o n, n \o ":" \o n, n \o "/tcp">>
Spelled == IF T THEN Numbers ELSE <<"0", "1", "5", "10", "80", "255", "256", "1000", "65535", "65536", "4294967295", "4294967296", "9223372036854775808",
                                    "18446744073709551615", "18446744073709551616", "99999999999999999999999">>
Floats == <<"0.0", "-0.0", "0.5", "1.0", "1.5", "5.0", "80.0", "100.0", "300.0", "-1.0", "-1.5", "1000.0", "65535.0", "65536.0", "1e20", "1e-7", ".inf", "-.inf", "123456.75">>
Odd1 == Texts(<<"all", "-1", "-01", "-1.0", "none", "null", "true", "~", "yes", "default", "host", "NaN", "nan", "inf", "Infinity", "infinity", "-0", "+", "-", ".", "1e3", "1E3",
                "0b1", "0o7", "1_000", "１", "٣", "½">>)
Kinds1 == {"u64", "u32", "u16", "percent", "weight", "oom", "value", "strnum", "micros", "duration", "cpus", "bytes", "limit.u32", "limit.u64", "limit.bytes", "uid", "id", "user",
           "count", "range", "expose", "port", "name", "identifier", "hostname", "ip", "ipv4", "ipv6", "ipnet", "mac", "image", "platform", "abspath", "hostpath", "link",
           "volumesfrom", "device", "cgrouprule", "netmode", "ipc", "ssh", "cache", "context", "buildnet", "cpuset", "volume", "str", "path", "any"}
SetOfSeq(q) == {q[i] : i \in 1..Len(q)}
Pool == SetOfSeq(Map(Num, Numbers)) \cup SetOfSeq(Map(LAMBDA n : Num("-" \o n), Negative)) \cup SetOfSeq(Map(Flo, Floats)) \cup SetOfSeq(Odd1)
        \cup UNION {SetOfSeq(Texts(Spellings(Spelled[i]))) : i \in 1..Len(Spelled)}
        \cup SetOfSeq(Generic) \cup UNION {SetOfSeq(GoodLeaf(a) \o BadLeaf(a)) : a \in Kinds1}
\* Texts that YAML itself would rewrite are for the machines that type them.
Bounded(a, x) == (a = "cpuset" /\ x.t = "s") => ModerateCpus(x.v)
\* No value at all in a setting is no setting.
Given(a, x) == a \in {"micros", "duration"} => x # Nil
\* Decimal numbers are given exactly: not beyond what the implementation's binary ones hold.
Exact(a, x) ==
    LET c == Chars(x.v)
    IN CASE x.t = "f" /\ x.v \in {".nan", "1e+20"} -> FALSE
         [] a # "cpus" -> TRUE
         [] x.t = "i" -> Len(c) < 16
         [] x.t \in {"s", "f"} -> Len(c) < 14 /\ First(c, "e") = 0 /\ First(c, "E") = 0
         [] OTHER -> TRUE
Plain(a, x) == a = "context" /\ x.t = "s" => First(Chars(x.v), ":") = 0 \/ x \in SetOfSeq(GoodLeaf("context"))

Init == leaf \in Focus /\ node = Nil
Next == node = Nil /\ UNCHANGED leaf /\ \E x \in Pool : node' = x
Read == LeafOf(leaf, node)
\* What is written is read again, as the same.
ReadAgain == LET r == Read IN IsSome(r) => LeafOf(leaf, r[1]) = r
Emit == Bounded(leaf, node) /\ Plain(leaf, node) /\ Given(leaf, node) /\ Exact(leaf, node) =>
        LET r == Read
        IN /\ IsSome(r) => LeafOf(leaf, r[1]) = r
           /\ PrintT("CASE " \o ToJson([op |-> "leaf.read", in |-> [leaf |-> leaf, node |-> node],
                                        out |-> IF IsSome(r) THEN [ok |-> TRUE, tree |-> r[1]] ELSE [ok |-> FALSE]]))
=============================================================================
