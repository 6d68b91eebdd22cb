---------------------------- MODULE NumeralTable ----------------------------
(***************************************************************************)
(* Scalars of every type around the boundaries of the integer types, made  *)
(* from values, read from document trees and from plain document text.     *)
(***************************************************************************)
EXTENDS Numerals, Json
CONSTANTS Tier
VARIABLES op, t, sign, digits, grown
vars == <<op, t, sign, digits, grown>>

Bounds == {"0", "1", "9", "10", "99", "100", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648",
           "4294967295", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808",
           "18446744073709551615"}
Floats == {"0", "1", "0.5", "1.5", "10", "0.1", "1234.5", "1e21", "1e300", "1e-7", "123456789012345", "0.000001", "inf", "nan", "4294967296",
           "1e16", "1.25e-10", "99999999999999e9"}
Texts == {"", "a", "true", "false", "5", "-5", "+5", "-0", "1.5", "~", "null", "True", "nan", ".5", "é", "a b", " 5", "5 ", "0x1F", "1_000", "yes",
          "18446744073709551616", "-9223372036854775809", "- a", "a: b", "\n"}
Minus(d) == BigOf(SmallVal(d) - 1)
Init ==
    \/ /\ op \in {"value.of", "value.read"} /\ t \in (IF op = "value.of" THEN {"u64", "i64"} ELSE {"i"})
       /\ sign \in {"", "-"} /\ digits \in Bounds /\ grown = 0
    \/ /\ op \in {"value.of", "value.read"} /\ t = (IF op = "value.of" THEN "f64" ELSE "f")
       /\ sign \in {"", "-"} /\ digits \in Floats /\ grown = 9
    \/ /\ op = "value.read" /\ t \in {"s", "z", "l", "m"} /\ sign = "" /\ digits \in (IF t = "s" THEN Texts ELSE {""}) /\ grown = 9
    \/ /\ op \in {"value.of", "value.read"} /\ t = (IF op = "value.of" THEN "bool" ELSE "b")
       /\ sign = "" /\ digits \in {"true", "false"} /\ grown = 9
    \/ /\ op = "value.plain" /\ t = "i" /\ sign \in {"", "-"} /\ digits \in Bounds /\ grown = 0
    \/ /\ op = "value.plain" /\ t = "f" /\ sign \in {"", "-"} /\ digits \in {"0.0", "1.5", ".5", "1e3", "10.0", "1.0e-5"} /\ grown = 9
\* Counting on from a boundary, adding or dropping a digit.
Grow ==
    /\ grown < (IF Tier = "thorough" THEN 4 ELSE 2) /\ grown' = grown + 1 /\ UNCHANGED <<op, t, sign>>
    /\ \/ digits' = Join(BigAdd(Chars(digits), <<"1">>))
       \/ digits # "0" /\ digits' = digits \o "0"
       \/ digits # "0" /\ digits' = digits \o "7"
       \/ Len(digits) > 1 /\ digits' = SubSeq(digits, 1, Len(digits) - 1)
Next == Grow

Value == sign \o digits
Fits ==
    LET d == Chars(digits)
    IN CASE t = "u64" -> sign = "" /\ BigLeq(d, U64Max)
         [] t \in {"i64"} -> BigLeq(d, IF sign = "-" THEN I64MinAbs ELSE I64Max)
         [] t = "i" -> (sign = "-" => BigLeq(d, I64MinAbs)) /\ BigLeq(d, U64Max) /\ (Value = "-0" => op = "value.plain")
         [] OTHER -> TRUE
\* (Minus zero is zero.)
Put(v) == IF t \in {"i", "i64"} /\ v = "-0" THEN "0" ELSE v
Out == CASE op = "value.of" -> EvalScalarOf([t |-> t, v |-> Put(Value)])
         [] OTHER -> EvalScalarRead([t |-> t, v |-> Put(Value)])
\* A number is convertible into whichever type its text is read as.
Consistent ==
    (Fits /\ t \in {"u64", "i64", "i"}) =>
        LET n == ScalarOf(t, Put(Value)).n[1]
            back == ParseNumber(Chars(ShowNumber(n)))
        IN IsSome(back) /\ AsU64(back[1]) = AsU64(n) /\ AsI64(back[1]) = AsI64(n)
Emit == Fits => PrintT("CASE " \o ToJson([op |-> op, in |-> [t |-> t, v |-> IF op = "value.plain" THEN Value ELSE Put(Value)], out |-> Out]))
=============================================================================
