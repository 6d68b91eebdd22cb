------------------------------- MODULE Ranks -------------------------------
(***************************************************************************)
(* Names, references, paths and numbers side by side: they are ordered as  *)
(* what they say is, equal exactly when they say the same, and found by    *)
(* their text wherever they are kept.                                      *)
(***************************************************************************)
EXTENDS Eval, Json
CONSTANTS Tier, Focus
VARIABLES kind, first, second
vars == <<kind, first, second>>
T == Tier = "thorough"

\* Characters as they are ordered.
Ordered == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">",
             "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^",
             "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~",
             "é", "ß", "漢">>
Place == [c \in {Ordered[i] : i \in 1..Len(Ordered)} |-> CHOOSE i \in 1..Len(Ordered) : Ordered[i] = c]
\* Sequences by the first element in which they differ, and shorter before longer.
RECURSIVE CompareBy(_, _, _)
CompareBy(cmp(_, _), a, b) ==
    IF Len(a) = 0 \/ Len(b) = 0 THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) = 0 THEN -1 ELSE 1)
    ELSE LET c == cmp(a[1], b[1]) IN IF c # 0 THEN c ELSE CompareBy(cmp, Tail(a), Tail(b))
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
CompareTexts(a, b) == CompareBy(LAMBDA x, y : Sign(Place[x] - Place[y]), Chars(a), Chars(b))
\* Paths by their components: the root, this directory (only in front), the one above, names.
Steps(s) ==
    LET cs == Chars(s)
        pieces == SelectSeq([i \in 1..Len(Split(cs, "/")) |-> Join(Split(cs, "/")[i])], LAMBDA p : p \notin {"", "."})
        front == IF IsAbsolute(cs) THEN <<[n |-> 1, s |-> ""]>> ELSE IF cs[1] = "." /\ (Len(cs) = 1 \/ cs[2] = "/") THEN <<[n |-> 2, s |-> ""]>> ELSE <<>>
    IN front \o [i \in 1..Len(pieces) |-> IF pieces[i] = ".." THEN [n |-> 3, s |-> ""] ELSE [n |-> 4, s |-> pieces[i]]]
ComparePaths(a, b) == CompareBy(LAMBDA x, y : IF x.n # y.n THEN Sign(x.n - y.n) ELSE CompareTexts(x.s, y.s), Steps(a), Steps(b))
\* Numbers as texts of digits.
CompareNumbers(a, b) ==
    LET minus(s) == Chars(s)[1] = "-"
        size(x, y) == IF x = y THEN 0 ELSE IF BigLeq(Chars(x), Chars(y)) THEN -1 ELSE 1
        bare(s) == IF minus(s) THEN SubSeq(s, 2, Len(s)) ELSE s
    IN CASE minus(a) /\ minus(b) -> size(bare(b), bare(a))
         [] minus(a) /\ ~minus(b) -> -1
         [] ~minus(a) /\ minus(b) -> 1
         [] OTHER -> size(a, b)
\* There is no more than all there is.
CompareLimits(a, b) ==
    CASE a = "-1" /\ b = "-1" -> 0
      [] a = "-1" -> 1
      [] b = "-1" -> -1
      [] OTHER -> CompareNumbers(a, b)

Letters == IF T THEN {"0", "9", "A", "Z", "_", "a", "z", "-", ".", "é", "~", " ", "x", "$"} ELSE {"0", "Z", "a", "-", ".", "_", "é", " "}
Shortest == Letters \cup {x \o y : x \in Letters, y \in Letters}
Longer == {"web", "web1", "web-1", "web_1", "web.1", "Web", "WEB", "we", "webb", "x-", "x-a", "x-A", "x-a-b", "x-ab", "nofile", "nofil", "10", "9", "09"}
Image1 == {"a", "a:b", "a:B", "a:ab", "a@sha256:00", "a@sha256:0f", "a@b:00", "a/b", "a/b:c", "a-b", "a.b/c", "a.b/c:1", "a:1", "localhost/a", "localhost:1/a", "b", "a__b", "a_b",
           "reg.io/a:b", "reg.io:80/a:b", "a:b-1", "a:b.1", "a:b_1"}
Names1 == {"a", "b", "ab", "a-b", "a.b", "a_b", "a__b", "a/b", "a/a", "a-b/c", "a.b/c", "localhost/a", "a0", "a:1/b", "0"}
Tags1 == {"a", "A", "_", "0", "a.", "a-", "a_", "ab", "aB", "1.2", "1.10", "1-2", "latest"}
Digests1 == {"sha256:00", "sha256:0f", "sha256:0F", "sha256:0", "sha512:00", "a:0", "a+b:0", "a.b:0", "A:0", "a0:0"}
Macs1 == {"00:00:00:00:00:00", "00:00:00:00:00:01", "01:00:00:00:00:00", "00:00:00:00:01:00", "0a:00:00:00:00:00", "0A:00:00:00:00:00", "ff:ff:ff:ff:ff:ff", "FF:ff:Ff:fF:ff:ff",
          "7f:00:00:00:00:00", "80:00:00:00:00:00", "9f:00:00:00:00:00", "a0:00:00:00:00:00", "00:00:00:00:00:ff", "00:00:00:00:00:7f", "00:00:00:00:00:80"}
Paths1 == {"/", "//", "/.", "/a", "/a/", "/a/.", "/./a", "//a", "/b", "/a/b", "/a//b", "/a/./b", "/a/../b", "/..", "/a.b", "/a-b", "/a b", "/A", "/ab", "/é",
           ".", "./", "./.", "..", "../", "./a", "././a", ".//a", "./a/", "./..", "../a", "../../a", "./a/b", "./a-b", "./b", ".a", "..a", ".a/b"}
          \cup {x \o y \o z : x \in {"/", "./", "../"}, y \in {"a/", "../", "./", "/", "ab/"} \cup IF T THEN {"a-/", "é/", "A/"} ELSE {}, z \in {"", "a", "..", ".", "a.b", "b/"}}
Weights == {"9", "10", "11", "99", "100", "500", "999", "1000", "1001"}
Scores == {"-1001", "-1000", "-999", "-100", "-9", "-1", "0", "1", "9", "10", "100", "999", "1000", "1001"}
Percents == {"0", "1", "9", "10", "11", "50", "99", "100", "101"}
Limits == {"-1", "0", "1", "9", "10", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
Texts1(k) ==
    CASE k \in Kinds -> Shortest \cup Longer
      [] k = "image.parse" -> Image1
      [] k = "image.name" -> Names1
      [] k = "image.tag" -> Tags1
      [] k = "image.digest" -> Digests1
      [] k = "mac.parse" -> Macs1
      [] k \in {"abspath.parse", "hostpath.parse"} -> Paths1
      [] k = "weight" -> Weights
      [] k = "score" -> Scores
      [] k = "percent" -> Percents
      [] k = "limit" -> Limits
Inside(s, low, high) == CompareNumbers(low, s) <= 0 /\ CompareNumbers(s, high) <= 0
Accepted(k, s) ==
    CASE k = "weight" -> Inside(s, "10", "1000")
      [] k = "score" -> Inside(s, "-1000", "1000")
      [] k = "percent" -> Inside(s, "0", "100")
      [] k = "limit" -> TRUE
      [] OTHER -> EvalText(k, s).ok
\* (An address is written in lower case, whatever it was read from.)
Compare(k, a, b) ==
    CASE k \in {"abspath.parse", "hostpath.parse"} -> ComparePaths(a, b)
      [] k \in {"weight", "score", "percent"} -> CompareNumbers(a, b)
      [] k = "limit" -> CompareLimits(a, b)
      [] k = "mac.parse" -> CompareTexts(EvalText(k, a).text, EvalText(k, b).text)
      [] OTHER -> CompareTexts(a, b)

Good1 == [k \in Focus |-> {s \in Texts1(k) : Accepted(k, s)}]
Init == /\ kind \in Focus
        /\ first \in Good1[kind] /\ second = None
Next == /\ IsNone(second)
        /\ second' \in {Some(s) : s \in Good1[kind]}
        /\ UNCHANGED <<kind, first>>
Order == Compare(kind, first, second[1])
\* It is an order.
Turned == IsSome(second) => Compare(kind, second[1], first) = -Order
Transitive == (T \/ kind \notin Kinds \cup {"abspath.parse", "hostpath.parse"}) /\ IsSome(second) /\ Order < 0 => \A s \in Good1[kind] : Compare(kind, second[1], s) <= 0 => Compare(kind, first, s) < 0
Emit == IsSome(second) =>
    PrintT("CASE " \o ToJson([op |-> "order.of", in |-> [kind |-> kind, a |-> first, b |-> second[1]],
                              out |-> [ok |-> TRUE, order |-> CASE Order < 0 -> "less" [] Order = 0 -> "same" [] Order > 0 -> "greater"]]))
=============================================================================
