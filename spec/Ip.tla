--------------------------------- MODULE Ip ---------------------------------
(***************************************************************************)
(* IP addresses: textual forms and their canonical print.                  *)
(* An IPv4 address is a sequence of 4 numbers, an IPv6 address of 8.       *)
(***************************************************************************)
EXTENDS Big

IsOctet(cs) ==
    /\ Len(cs) \in 1..3 /\ All(cs, Digit)
    /\ (Len(cs) > 1 => cs[1] # "0")
    /\ SmallVal(cs) <= 255
ParseV4(cs) ==
    LET p == Split(cs, ".")
    IN IF Len(p) = 4 /\ \A i \in 1..4 : IsOctet(p[i])
       THEN Some([i \in 1..4 |-> SmallVal(p[i])]) ELSE None

RECURSIVE HexNum(_)
HexNum(d) == IF Len(d) = 0 THEN 0 ELSE HexNum(DropLast(d, 1)) * 16 + HexVal(d[Len(d)])
IsGroup(cs) == Len(cs) \in 1..4 /\ All(cs, HexDigit)

\* Groups denoted by a ':'-separated list; a trailing IPv4 address stands for two.
\* None when malformed.
GroupList(cs, v4) ==
    IF Len(cs) = 0 THEN Some(<<>>)
    ELSE LET p == Split(cs, ":")
             n == Len(p)
             tail == ParseV4(p[n])
             hex(k) == [i \in 1..k |-> HexNum(p[i])]
         IN IF \A i \in 1..n : IsGroup(p[i]) THEN Some(hex(n))
            ELSE IF v4 /\ IsSome(tail) /\ \A i \in 1..(n - 1) : IsGroup(p[i])
            THEN Some(hex(n - 1) \o <<tail[1][1] * 256 + tail[1][2], tail[1][3] * 256 + tail[1][4]>>)
            ELSE None

\* Position of the first "::", 0 when there is none.
Gap(cs) ==
    LET S == {i \in 1..(Len(cs) - 1) : cs[i] = ":" /\ cs[i + 1] = ":"}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Zeros(n) == [i \in 1..n |-> 0]
ParseV6(cs) ==
    LET g == Gap(cs)
    IN IF g = 0 THEN
           LET l == GroupList(cs, TRUE)
           IN IF IsSome(l) /\ Len(l[1]) = 8 THEN l ELSE None
       ELSE
           LET l == GroupList(SubSeq(cs, 1, g - 1), FALSE)
               r == GroupList(SubSeq(cs, g + 2, Len(cs)), TRUE)
           IN IF IsSome(l) /\ IsSome(r) /\ Len(l[1]) + Len(r[1]) <= 7
              THEN Some(l[1] \o Zeros(8 - Len(l[1]) - Len(r[1])) \o r[1]) ELSE None
ParseIp(cs) == LET a == ParseV4(cs) IN IF IsSome(a) THEN a ELSE ParseV6(cs)

RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN HexDigits[n + 1] ELSE HexStr(n \div 16) \o HexDigits[(n % 16) + 1]
ShowV4(a) == JoinWith([i \in 1..4 |-> NatStr(a[i])], ".")
ShowGroups(gs) == JoinWith([i \in 1..Len(gs) |-> HexStr(gs[i])], ":")
\* The first longest run of at least two zero groups is written "::".
Runs(a) == {<<i, n>> \in (1..8) \X (2..8) : i + n <= 9 /\ \A k \in i..(i + n - 1) : a[k] = 0}
ShowV6(a) ==
    IF SubSeq(a, 1, 6) = <<0, 0, 0, 0, 0, 65535>>
    THEN "::ffff:" \o ShowV4(<<a[7] \div 256, a[7] % 256, a[8] \div 256, a[8] % 256>>)
    ELSE LET R == Runs(a)
         IN IF R = {} THEN ShowGroups(a)
            ELSE LET run == CHOOSE r \in R : \A q \in R : r[2] > q[2] \/ (r[2] = q[2] /\ r[1] <= q[1])
                 IN ShowGroups(SubSeq(a, 1, run[1] - 1)) \o "::" \o ShowGroups(SubSeq(a, run[1] + run[2], 8))
ShowIp(a) == IF Len(a) = 4 THEN ShowV4(a) ELSE ShowV6(a)

StripBrackets(cs) ==
    IF Len(cs) >= 2 /\ cs[1] = "[" /\ cs[Len(cs)] = "]" THEN SubSeq(cs, 2, Len(cs) - 1) ELSE cs

EvalIp(s) ==
    LET a == ParseIp(Chars(s))
    IN IF IsNone(a) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, text |-> ShowIp(a[1])]
=============================================================================
