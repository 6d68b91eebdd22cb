------------------------------ MODULE Scalars ------------------------------
(***************************************************************************)
(* Quantities: durations, byte sizes, limits, CPU sets.                    *)
(* All numbers are Big digit sequences (they reach 64 bits and beyond).    *)
(***************************************************************************)
EXTENDS Big

(***************************************************************************)
(* Durations: (digits unit)+, units h m s ms us; denotes the exact sum in  *)
(* microseconds.  Every number fits 64 bits and the sum 64 bits of seconds.*)
(***************************************************************************)
\* Length of the longest prefix of cs inside / outside of the digits.
RECURSIVE PrefixIn(_, _), PrefixOut(_, _)
PrefixIn(cs, S) == IF Len(cs) = 0 \/ cs[1] \notin S THEN 0 ELSE 1 + PrefixIn(Tail(cs), S)
PrefixOut(cs, S) == IF Len(cs) = 0 \/ cs[1] \in S THEN 0 ELSE 1 + PrefixOut(Tail(cs), S)
DurationUnits == {"h", "m", "s", "ms", "us"}
\* n units, in microseconds
InMicros(n, unit) ==
    CASE unit = "h" -> Shift(BigMul(n, 3600), 6)
      [] unit = "m" -> Shift(BigMul(n, 60), 6)
      [] unit = "s" -> Shift(n, 6)
      [] unit = "ms" -> Shift(n, 3)
      [] unit = "us" -> n
WholeSeconds(us) == IF Len(us) <= 6 THEN <<"0">> ELSE DropLast(us, 6)
SubMicros(us) == SmallVal(IF Len(us) <= 6 THEN us ELSE SubSeq(us, Len(us) - 5, Len(us)))
RECURSIVE SumDuration(_, _)
SumDuration(cs, acc) ==
    IF Len(cs) = 0 THEN Some(acc)
    ELSE LET d == PrefixIn(cs, Digit)
             rest == DropFirst(cs, d)
             u == PrefixOut(rest, Digit)
             unit == Join(SubSeq(rest, 1, u))
             n == ParseU(SubSeq(cs, 1, d), U64Max)
         IN IF d = 0 \/ unit \notin DurationUnits \/ IsNone(n) THEN None
            ELSE LET sum == BigAdd(acc, InMicros(n[1], unit))
                 IN IF BigLeq(WholeSeconds(sum), U64Max) THEN SumDuration(DropFirst(rest, u), sum) ELSE None
ParseDuration(cs) == IF Len(cs) = 0 THEN None ELSE SumDuration(cs, <<"0">>)
IfAny(d, unit) == IF d = <<"0">> THEN "" ELSE Join(d) \o unit
ShowDuration(us) ==
    LET s == WholeSeconds(us)
        h == BigDivMod(s, 3600)
        sub == SubMicros(us)
        text == IfAny(h.q, "h") \o IfAny(BigOf(h.r \div 60), "m") \o IfAny(BigOf(h.r % 60), "s")
                \o IfAny(BigOf(sub \div 1000), "ms") \o IfAny(BigOf(sub % 1000), "us")
    IN IF text = "" THEN "0s" ELSE text
ViewDuration(us) == [ok |-> TRUE, text |-> ShowDuration(us), us |-> Join(us)]
EvalDuration(s) ==
    LET d == ParseDuration(Chars(s)) IN IF IsNone(d) THEN [ok |-> FALSE] ELSE ViewDuration(d[1])
\* A duration given as (seconds, nanoseconds): printed to the microsecond.
EvalDurationOf(secs, nanos) ==
    ViewDuration(BigAdd(Shift(StripZeros(Chars(secs)), 6), BigOf(nanos \div 1000)))

(***************************************************************************)
(* Byte sizes                                                              *)
(***************************************************************************)
BV(n, unit) == [n |-> n, unit |-> unit]
Suffixed(cs, unit, n) == LET d == ParseU(DropLast(cs, n), U64Max) IN IF IsNone(d) THEN None ELSE Some(BV(d[1], unit))
ParseBytes(cs) ==
    LET plain == ParseU(cs, U64Max)
        End(p) == EndsWith(cs, Chars(p))
    IN CASE Len(cs) = 0 -> None
         [] IsSome(plain) -> Some(BV(plain[1], "b"))
         [] End("gb") -> Suffixed(cs, "gb", 2)
         [] End("g") \/ End("G") -> Suffixed(cs, "gb", 1)
         [] End("mb") -> Suffixed(cs, "mb", 2)
         [] End("m") \/ End("M") -> Suffixed(cs, "mb", 1)
         [] End("kb") -> Suffixed(cs, "kb", 2)
         [] End("k") \/ End("K") -> Suffixed(cs, "kb", 1)
         [] End("b") \/ End("B") -> Suffixed(cs, "b", 1)
         [] OTHER -> None
ShowBytes(b) == Join(b.n) \o b.unit
UnitPower == [b |-> 0, kb |-> 3, mb |-> 6, gb |-> 9]
\* The number of bytes, when it fits 64 bits.
InBytes(b) == LET t == Shift(b.n, UnitPower[b.unit]) IN IF BigLeq(t, U64Max) THEN Some(Join(t)) ELSE None
ViewBytes(b) == [ok |-> TRUE, text |-> ShowBytes(b), n |-> Join(b.n), unit |-> b.unit, bytes |-> InBytes(b)]
EvalBytes(s) == LET b == ParseBytes(Chars(s)) IN IF IsNone(b) THEN [ok |-> FALSE] ELSE ViewBytes(b[1])

(***************************************************************************)
(* Limits: -1 (unlimited) or a value of one of three kinds.                *)
(***************************************************************************)
LimitKinds == {"limit.u32", "limit.u64", "limit.bytes"}
ParseLimitText(kind, cs) ==
    CASE kind = "limit.u32" -> LET n == ParseU(cs, U32Max) IN IF IsNone(n) THEN None ELSE Some(Join(n[1]))
      [] kind = "limit.u64" -> LET n == ParseU(cs, U64Max) IN IF IsNone(n) THEN None ELSE Some(Join(n[1]))
      [] kind = "limit.bytes" -> LET b == ParseBytes(cs) IN IF IsNone(b) THEN None ELSE Some(ShowBytes(b[1]))
EvalLimit(kind, s) ==
    IF s = "-1" THEN [ok |-> TRUE, text |-> "-1", unlimited |-> TRUE]
    ELSE LET x == ParseLimitText(kind, Chars(s))
         IN IF IsNone(x) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, text |-> x[1], unlimited |-> FALSE]

(***************************************************************************)
(* CPU sets: sorted, disjoint, non-adjacent intervals.                     *)
(***************************************************************************)
CI(lo, hi) == [lo |-> lo, hi |-> hi]
One == <<"1">>
BigLess(a, b) == BigLeq(a, b) /\ a # b
BigMin(a, b) == IF BigLeq(a, b) THEN a ELSE b
BigMax(a, b) == IF BigLeq(a, b) THEN b ELSE a
AddInterval(list, x) ==
    LET Left(y) == BigLess(BigAdd(y.hi, One), x.lo)
        Right(y) == BigLess(BigAdd(x.hi, One), y.lo)
        mid == SelectSeq(list, LAMBDA y : ~Left(y) /\ ~Right(y))
        merged == FoldLeft(LAMBDA a, y : CI(BigMin(a.lo, y.lo), BigMax(a.hi, y.hi)), x, mid)
    IN SelectSeq(list, Left) \o <<merged>> \o SelectSeq(list, Right)
\* One item: None, or an interval.
ParseCpuItem(cs) ==
    LET i == First(cs, "-")
        lo == ParseU(IF i = 0 THEN cs ELSE Before(cs, i), U64Max)
        hi == IF i = 0 THEN lo ELSE ParseU(After(cs, i), U64Max)
    IN IF IsNone(lo) \/ IsNone(hi) THEN None
       ELSE IF BigLeq(lo[1], hi[1]) THEN Some(CI(lo[1], hi[1])) ELSE None
\* A trailing comma ends the last item instead of starting another one.
CpuItems(cs) == LET p == Split(cs, ",") IN IF Len(p[Len(p)]) = 0 THEN DropLast(p, 1) ELSE p
ParseCpus(cs) ==
    LET items == Map(ParseCpuItem, CpuItems(cs))
    IN IF \E i \in 1..Len(items) : IsNone(items[i]) THEN None
       ELSE Some(FoldLeft(LAMBDA acc, x : AddInterval(acc, x[1]), <<>>, items))
ShowInterval(x) == Join(x.lo) \o (IF x.lo = x.hi THEN "" ELSE "-" \o Join(x.hi))
ShowCpus(list) == JoinWith(Map(ShowInterval, list), ",")
ViewCpus(list) ==
    [ok |-> TRUE, text |-> ShowCpus(list), cpus |-> Map(LAMBDA x : <<Join(x.lo), Join(x.hi)>>, list)]
EvalCpus(s) == LET l == ParseCpus(Chars(s)) IN IF IsNone(l) THEN [ok |-> FALSE] ELSE ViewCpus(l[1])
\* The library materialises every CPU, so only sets of moderate size are tried.
Moderate(x) == LET d == BigAdd(x.lo, Chars("5000")) IN BigLeq(x.hi, d)
ModerateCpus(s) ==
    LET items == CpuItems(Chars(s))
    IN \A i \in 1..Len(items) :
        LET c == ParseCpuItem(items[i]) IN IsNone(c) \/ Moderate(c[1])
=============================================================================
