-------------------------------- MODULE Crowd --------------------------------
(***************************************************************************)
(* Sections with much of one thing: lists and mappings of many entries, in *)
(* any order, with entries repeated or one of them wrong; long texts; and  *)
(* texts and keys that a format must quote or escape.                      *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus, Part, Parts, Op
VARIABLES section, field, what
vars == <<section, field, what>>
T == Tier = "thorough"
Counts == {3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65} \cup (IF T THEN {2, 10, 12, 100, 127, 128, 129, 255, 256, 257, 300} ELSE {})
Few1 == {3, 8, 33}

Cycle(s, i) == s[(i % Len(s)) + 1]
NthLeaf(a, i) ==
    LET n == NatStr(i)
    IN CASE a = "str" -> Txt("s" \o n)
         [] a = "path" -> Txt("./p/" \o n)
         [] a = "value" -> Cycle(<<Txt("v" \o n), Num(n), Txt(n), Bool(TRUE), Num("-" \o n), Flo(n \o ".5"), Txt("")>>, i)
         [] a = "strnum" -> Cycle(<<Txt("v" \o n), Num(n), Txt(n), Flo(n \o ".5")>>, i)
         [] a \in {"identifier", "name"} -> Txt("n" \o n)
         [] a = "hostname" -> Txt("h-" \o n)
         [] a = "volume" -> Cycle(<<Txt("/d" \o n), Txt("v" \o n \o ":/data"), Txt("./s:/d" \o n \o ":ro"), Txt("/a" \o n \o ":/b:rw,z")>>, i)
         [] a = "port" -> Cycle(<<Num(n), Txt(n \o ":80"), Txt("127.0.0.1:" \o n \o ":81/udp"), Txt(n \o "-" \o NatStr(i + 2))>>, i)
         [] a = "expose" -> Cycle(<<Num(n), Txt(n \o "/udp"), Txt(n \o "-" \o NatStr(i + 2))>>, i)
         [] a = "range" -> Cycle(<<Num(n), Txt(n \o "-" \o NatStr(i + 2))>>, i)
         [] a = "device" -> Txt("/dev/a" \o n \o ":/dev/b:r")
         [] a = "cgrouprule" -> Txt("c " \o n \o ":* rm")
         [] a = "link" -> Cycle(<<Txt("db" \o n), Txt("db:a" \o n)>>, i)
         [] a = "volumesfrom" -> Cycle(<<Txt("w" \o n), Txt("w:ro"), Txt("container:c" \o n)>>, i)
         [] a = "ssh" -> Txt("k" \o n \o "=./p")
         [] a = "cache" -> Cycle(<<Txt("img" \o n), Txt("type=local,src=" \o n)>>, i)
         [] a = "abspath" -> Txt("/p" \o n)
         [] a = "ip" -> Cycle(<<Txt("10.0." \o NatStr(i % 250) \o ".1"), Txt("::" \o NatStr(i % 1000))>>, i)
         [] a \in {"ipv4"} -> Txt("10.1.0." \o NatStr(i % 250))
         [] a \in {"u64", "u32", "limit.u64"} -> Num(n)
         [] a = "user" -> Txt("u" \o n)
         [] OTHER -> Cycle(GoodLeaf(a), i)
\* (Tables, so that they are worked out once.)
Bases == [a \in {SectionNames[i] : i \in 1..Len(SectionNames)} |-> <<Minimal(a), Full(a, 1)>>]
Owned == [a \in {"network", "volume", "config", "secret", "mount", "healthcheck", "test", "extra_hosts", "contexts"} |-> Good(Own(a))]
RECURSIVE Nth(_, _)
Nth(ty, i) ==
    CASE ty.g = "leaf" -> NthLeaf(ty.a, i)
      [] ty.g = "or" -> LET some == SelectSeq(ty.s, LAMBDA t : t # Never) IN Nth(Cycle(some, i), i)
      [] ty.g \in {"list", "set"} -> Lst(<<Nth(ty.s[1], i)>>)
      [] ty.g \in {"map", "nmap"} -> Dict(<<Key(GoodKeys(ty.a)[1], Nth(ty.s[1], i))>>)
      \* Sections, told apart by their first text.
      [] ty.g = "sec" -> LET d == Bases[ty.a][IF i % 13 = 4 THEN 2 ELSE 1]
                         IN [d EXCEPT !.c = [j \in 1..Len(@) |->
                                LET by == SectionOf(ty.a).by
                                IN IF @[j].k \in DOMAIN by /\ by[@[j].k].ty \in {Str, Path, U64, Ident} THEN Key(@[j].k, Nth(by[@[j].k].ty, i)) ELSE @[j]]]
      [] ty.g = "own" -> Cycle(Owned[ty.a], i)
      [] OTHER -> Cycle(Good(ty), i)
NthKey(kind, i) ==
    CASE kind = "key.map" -> Cycle(<<"k" \o NatStr(i), "K" \o NatStr(i), NatStr(i), "a." \o NatStr(i)>>, i)
      [] kind = "key.ulimit" -> Join([j \in 1..(i \div 26) + 1 |-> "u"]) \o SubSeq("abcdefghijklmnopqrstuvwxyz", (i % 26) + 1, (i % 26) + 1)
      [] OTHER -> "k" \o NatStr(i)

\* The i-th of n comes in place Place(how, n, i).
Place(how, n, i) ==
    CASE how = "up" -> i [] how = "down" -> n + 1 - i
      [] how = "mixed" -> (i * 7 + 3) % (n + (IF n % 7 = 0 THEN 1 ELSE 0)) [] how = "twice" -> (i * 3) % ((n \div 2) + 1) [] OTHER -> i
Wrong(how, n, i) ==
    \/ (how = "first wrong" /\ i = 1)
    \/ (how = "last wrong" /\ i = n)
    \/ (how = "middle wrong" /\ i = (n + 1) \div 2)
Hows == {"up", "down", "mixed", "twice", "first wrong", "last wrong", "middle wrong", "gaps"}
Item(ty, how, n, i) ==
    IF Wrong(how, n, i) THEN LET b == Bad(ty) \o <<Lst(<<Lst(<<>>)>>)>> IN b[1] ELSE Nth(ty, Place(how, n, i))
\* Keys are told apart whatever the order: repeated entries keep the first place.
ManyKeyed(ty, how, n) ==
    Dict(FoldLeft(LAMBDA acc, i :
            LET k == NthKey(ty.a, Place(how, n, i))
                v == IF how = "gaps" /\ i % 3 = 0 THEN Nil ELSE Item(ty.s[1], how, n, i)
            IN IF \E j \in 1..Len(acc) : acc[j].k = k THEN acc ELSE Append(acc, Key(k, v)),
         <<>>, [i \in 1..n |-> i]))
ManyListed(ty, how, n) == Lst([i \in 1..n |-> IF how = "gaps" /\ i % 3 = 0 THEN Nil ELSE Item(ty.s[1], how, n, i)])
TextsOf(f(_), how, n) == Lst([i \in 1..n |-> IF Wrong(how, n, i) THEN Nil ELSE Txt(f(Place(how, n, i)))])
TextDict(kind, f(_), how, n) ==
    Dict(FoldLeft(LAMBDA acc, i :
            LET k == NthKey(kind, Place(how, n, i))
            IN IF \E j \in 1..Len(acc) : acc[j].k = k THEN acc
               ELSE Append(acc, Key(k, IF Wrong(how, n, i) THEN Lst(<<>>) ELSE Txt(f(Place(how, n, i))))),
         <<>>, [i \in 1..n |-> i]))
RECURSIVE ManyOf(_, _, _)
ManyOf(ty, how, n) ==
    CASE ty.g \in {"list", "set"} -> <<ManyListed(ty, how, n)>>
      [] ty.g \in {"map", "nmap"} -> <<ManyKeyed(ty, how, n)>>
      [] ty.g = "or" -> (IF ty.s[2].g \in {"list", "set"} THEN ManyOf(ty.s[2], how, n) ELSE <<>>)
                        \o (IF ty.s[3].g \in {"map", "nmap"} THEN ManyOf(ty.s[3], how, n) ELSE <<>>)
                        \* What is listed as text may stand for what would be keyed.
                        \o (IF ty = ListOrMap THEN <<TextsOf(LAMBDA i : "k" \o NatStr(i) \o (IF i % 4 = 0 THEN "" ELSE "=v" \o NatStr(i)), how, n)>> ELSE <<>>)
      [] ty.g = "own" ->
            CASE ty.a = "test" -> <<Lst(<<Txt("CMD")>> \o TextsOf(LAMBDA i : "a" \o NatStr(i), how, n).c)>>
              [] ty.a = "extra_hosts" -> <<TextsOf(LAMBDA i : "h" \o NatStr(i) \o (IF i % 2 = 0 THEN "=" ELSE ":") \o "10.0.0." \o NatStr(i % 250), how, n),
                                           TextDict("key.hostname", LAMBDA i : "10.0.0." \o NatStr(i % 250), how, n)>>
              [] ty.a = "contexts" -> <<TextsOf(LAMBDA i : "c" \o NatStr(i) \o "=./d" \o NatStr(i), how, n),
                                        TextDict("key.map", LAMBDA i : "./d" \o NatStr(i), how, n)>>
              [] OTHER -> <<>>
      [] OTHER -> <<>>

Long == {"a", "ab ", " x", "é", "line\n", "\n", "a: ", "# ", "\t", "'", "\"", "\\", "${A}", "0"}
Lengths == {1, 2, 39, 40, 41, 79, 80, 81, 127, 128, 129, 255, 256, 257, 1000}
RepeatText(t, n) == Join([i \in 1..n |-> t])
OddTexts == <<"TRUE", "False", "yes", "NO", "on", "off", "Null", "NULL", "~x", "0o17", "0b1", "1_000", "+1", "-0", "0.0", "1.", ".5", "1e5", "1E-5", ".inf", "-.INF", ".NaN", "nan",
              "2001-01-01", "12:30:45", "1:2", "- x", "-", "--", "---", "...", "? x", "?", ": x", ":", "a:", "a: b", "a #b", "#a", " #", "&a", "*a", "!t", "!!str", "|", ">", "|-", "%T",
              "@a", "`a", "{", "}", "[", "]", "{a: b}", "[a]", ",", "'a'", "\"a\"", "a'b", "a\"b", "\\", "\\n", "a\\", "a\tb", "\ta", "a\n", "\na", "a\n\nb", "a \nb", "a\n b",
              " a", "a ", "  ", "a  b", "é", "ü: ß", "日本", "", "", "", "﻿a", " ", " ", "<<", "=", "y", "n", "0x", "0xg", "07", "08", "1__0", "${VAR}", "$$x", "$",
              "x-a", "type", "null", "true", "12", "1.50", "99999999999999999999", "-99999999999999999999", "1e999">>
TextualLeaves == {"str", "path", "value", "strnum"}
OddKeys == <<"true", "null", "~", "1.5", "007", "-1", "a: b", "- x", "-", "?", ":", "#c", " lead", "trail ", "é", "*a", "&a", "!t", "|", ">", "%", "@", "`", "{", "}", "[", "]", "'", "\"", "\\", ",",
             "a\tb", "a\n", "a\r", "=", "a=b", "=a", "<<", "x-a", "K", "", "日本", ".", "..", "/", "a/b", "a_b", "_a", "-a", "a-", "A", "Z9", "0">>

Fields == [a \in Focus |-> SectionOf(a).fs]
RECURSIVE Plural(_), Textual(_)
Plural(ty) == ty.g \in {"list", "set", "map", "nmap"} \/ (ty.g = "own" /\ ty.a \in {"test", "extra_hosts", "contexts"}) \/ (ty.g = "or" /\ (Plural(ty.s[2]) \/ Plural(ty.s[3])))
\* A text in the place of the type, if any.
Textual(ty) == (ty.g = "leaf" /\ ty.a \in TextualLeaves) \/ (ty.g \in {"list", "set", "map", "nmap"} /\ Textual(ty.s[1]))
               \/ (ty.g = "or" /\ \E i \in 1..3 : Textual(ty.s[i]))
RECURSIVE TextIn(_, _)
TextIn(ty, t) ==
    CASE ty.g = "leaf" -> IF ty.a \in TextualLeaves THEN <<Txt(t)>> ELSE <<>>
      [] ty.g \in {"list", "set"} -> Map(LAMBDA x : Lst(<<x>>), TextIn(ty.s[1], t))
      [] ty.g \in {"map", "nmap"} -> Map(LAMBDA x : Dict(<<Key(GoodKeys(ty.a)[1], x)>>), TextIn(ty.s[1], t))
      [] ty.g = "or" -> TextIn(ty.s[1], t) \o (IF ty.s[2] = ty.s[1] THEN <<>> ELSE TextIn(ty.s[2], t)) \o TextIn(ty.s[3], t)
      [] OTHER -> <<>>
RECURSIVE Keyed(_), KeyIn(_, _)
Keyed(ty) == ty.g \in {"map", "nmap"} \/ (ty.g = "or" /\ Keyed(ty.s[3]))
KeyIn(ty, k) == IF ty.g = "or" THEN KeyIn(ty.s[3], k) ELSE Dict(<<Key(k, Good(ty.s[1])[1])>>)

Init == section \in Focus /\ field = "" /\ what = [n |-> 0, x |-> Nil]
Put(i) == field' = Fields[section][i].f /\ UNCHANGED section
Next ==
    /\ field = ""
    /\ \E i \in {j \in 1..Len(Fields[section]) : j % Parts = Part} :
        LET ty == Fields[section][i].ty
        IN Put(i) /\
           \/ Plural(ty) /\ \E how \in Hows, n \in Counts :
                 /\ (T \/ how \in {"up", "mixed"} \/ n \in Few1)
                 /\ LET xs == ManyOf(ty, how, n) IN \E j \in 1..Len(xs) : what' = [n |-> n, x |-> xs[j]]
           \/ Textual(ty) /\ \E t \in {OddTexts[j] : j \in 1..Len(OddTexts)} \cup {RepeatText(t, n) : t \in (IF T THEN Long ELSE {"a", "ab ", "é"}), n \in Lengths} :
                 LET xs == TextIn(ty, t) IN \E j \in 1..Len(xs) : what' = [n |-> 0, x |-> xs[j]]
           \/ Keyed(ty) /\ \E j \in 1..Len(OddKeys) : what' = [n |-> 0, x |-> KeyIn(ty, OddKeys[j])]

Doc == Placed(section, LET m == Minimal(section) IN Dict(SelectSeq(m.c, LAMBDA y : y.k # field) \o <<Key(field, what.x)>>))
Out == Canon(Document, Doc)
Case(out) == PrintT("CASE " \o ToJson([op |-> Op, in |-> Doc, out |-> out]))
Emit ==
    field # "" /\ Settled(Doc) =>
    CASE Op = "doc.accept" -> Case([ok |-> IsSome(Out)])
      [] Op = "doc.write" -> LET c == Out IN IF IsSome(c) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE Case([ok |-> FALSE])
      [] Op = "doc.json" -> LET c == Out IN IF IsSome(c) /\ Sayable(Doc) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE TRUE
      [] Op = "doc.roundtrip" -> IF Somewhere("choice", Document, Doc) THEN TRUE ELSE Case([survives |-> TRUE])
      [] Op = "doc.order" -> Case([ok |-> IsSome(Out), same |-> TRUE])
=============================================================================
