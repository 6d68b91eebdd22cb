-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Unbounded natural numbers as sequences of decimal digits characters     *)
(* without leading zeros (zero is <<"0">>).  TLC's integers have 32 bits;  *)
(* the quantities in a Compose file (bytes, nanoseconds, 64-bit counters)  *)
(* do not fit.                                                             *)
(***************************************************************************)
EXTENDS Str

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = "0" THEN StripZeros(Tail(d)) ELSE d

BigOf(n) == Chars(NatStr(n))

\* Lexicographic comparison of equally long digit strings.
RECURSIVE LexLeq(_, _)
LexLeq(a, b) ==
    IF Len(a) = 0 THEN TRUE
    ELSE IF a[1] = b[1] THEN LexLeq(Tail(a), Tail(b))
    ELSE DigitVal(a[1]) < DigitVal(b[1])
BigLeq(a, b) ==
    \/ Len(a) < Len(b)
    \/ Len(a) = Len(b) /\ LexLeq(a, b)

D(n) == HexDigits[n + 1]
\* Digit from the right, 0 beyond the left end.
At(a, i) == IF i > Len(a) THEN 0 ELSE DigitVal(a[Len(a) - i + 1])

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE BigOf(carry))
    ELSE LET t == At(a, i) + At(b, i) + carry
         IN Append(AddFrom(a, b, i + 1, t \div 10), D(t % 10))
BigAdd(a, b) == StripZeros(AddFrom(a, b, 1, 0))

\* a * k for a machine integer 0 <= k < 10^8.
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, k, i, carry) ==
    IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE BigOf(carry))
    ELSE LET t == At(a, i) * k + carry
         IN Append(MulFrom(a, k, i + 1, t \div 10), D(t % 10))
BigMul(a, k) == IF k = 0 THEN <<"0">> ELSE StripZeros(MulFrom(a, k, 1, 0))

\* a * 10^n
Shift(a, n) == IF a = <<"0">> THEN a ELSE a \o [i \in 1..n |-> "0"]

\* a div k and a mod k for a machine integer 0 < k < 10^8.
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, k, i, rem, acc) ==
    IF i > Len(a) THEN [q |-> StripZeros(acc), r |-> rem]
    ELSE LET t == rem * 10 + DigitVal(a[i])
         IN DivFrom(a, k, i + 1, t % k, Append(acc, D(t \div k)))
BigDivMod(a, k) == DivFrom(a, k, 1, 0, <<>>)

U8Max  == Chars("255")
U16Max == Chars("65535")
U32Max == Chars("4294967295")
U64Max == Chars("18446744073709551615")
I64MinAbs == Chars("9223372036854775808")
I64Max == Chars("9223372036854775807")

\* The integer grammar: an optional plus sign, then at least one decimal digit,
\* denoting a number no greater than max.  Result: None or Some(digits).
ParseU(cs, max) ==
    LET body == IF Len(cs) > 1 /\ cs[1] = "+" THEN Tail(cs) ELSE cs
    IN IF Len(body) = 0 \/ ~All(body, Digit) THEN None
       ELSE LET d == StripZeros(body) IN IF BigLeq(d, max) THEN Some(d) ELSE None

\* Small (machine) value of a digit sequence known to be below 2^31.
RECURSIVE SmallVal(_)
SmallVal(d) == IF Len(d) = 0 THEN 0 ELSE SmallVal(DropLast(d, 1)) * 10 + DigitVal(d[Len(d)])
=============================================================================
