------------------------------ MODULE Numerals ------------------------------
(***************************************************************************)
(* The scalars of a document which may be of any type: texts, booleans and *)
(* numbers, a number being held as an unsigned integer, a signed integer,  *)
(* or a float.  What a text denotes, how a scalar prints, and what it      *)
(* converts into.                                                          *)
(*                                                                         *)
(* A number is sig * 10^exp, negative or not; sig has no leading zeros,    *)
(* and in a float no trailing ones either.  Floats are decimal here: the   *)
(* specification speaks of those that 64 bits hold to all their digits     *)
(* (Exact below).                                                          *)
(***************************************************************************)
EXTENDS Big

NumOf(k, neg, sig, exp, name) == [k |-> k, neg |-> neg, sig |-> sig, exp |-> exp, name |-> name]
UInt(d) == NumOf("uint", FALSE, d, 0, "")
SInt(neg, d) == NumOf("int", neg, d, 0, "")
RECURSIVE Normal(_, _)
Normal(sig, exp) ==
    IF sig = <<"0">> THEN [sig |-> sig, exp |-> 0]
    ELSE IF sig[Len(sig)] = "0" THEN Normal(DropLast(sig, 1), exp + 1) ELSE [sig |-> sig, exp |-> exp]
Float(neg, sig, exp) ==
    LET n == Normal(StripZeros(sig), exp)
        m == Len(n.sig) + n.exp
    IN IF n.sig = <<"0">> \/ m <= -330 THEN NumOf("float", neg, <<"0">>, 0, "")
       ELSE IF m >= 310 THEN NumOf("float", neg, <<"0">>, 0, "inf")
       ELSE NumOf("float", neg, n.sig, n.exp, "")
\* A float that 64 bits tell from all other decimals of as few digits.
Exact(n) ==
    n.k = "float" /\ n.name = "" /\ n.sig # <<"0">> =>
        Len(n.sig) <= 15 /\ Len(n.sig) + n.exp \in -300..308

(***************************************************************************)
(* Texts denoting numbers.                                                 *)
(***************************************************************************)
SameWord(cs, lower, upper) == Len(cs) = Len(lower) /\ \A i \in 1..Len(cs) : cs[i] \in {lower[i], upper[i]}
Signed(cs) == Len(cs) > 0 /\ cs[1] \in {"+", "-"}
Unsigned(cs) == IF Signed(cs) THEN Tail(cs) ELSE cs
ParseExponent(cs) ==
    LET d == Unsigned(cs)
        s == StripZeros(d)
        n == IF Len(s) > 6 THEN 999999 ELSE SmallVal(s)
    IN IF Len(d) = 0 \/ ~All(d, Digit) THEN None ELSE Some(IF cs[1] = "-" THEN 0 - n ELSE n)
ParseFloat(cs) ==
    LET neg == Len(cs) > 0 /\ cs[1] = "-"
        body == Unsigned(cs)
        at == {i \in 1..Len(body) : body[i] \in {"e", "E"}}
        e == IF at = {} THEN Len(body) + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j
        mantissa == Before(body, e)
        exponent == IF at = {} THEN Some(0) ELSE ParseExponent(After(body, e))
        dot == First(mantissa, ".")
        whole == IF dot = 0 THEN mantissa ELSE Before(mantissa, dot)
        part == IF dot = 0 THEN <<>> ELSE After(mantissa, dot)
    IN CASE SameWord(body, Chars("inf"), Chars("INF")) \/ SameWord(body, Chars("infinity"), Chars("INFINITY")) ->
                Some(NumOf("float", neg, <<"0">>, 0, "inf"))
         [] SameWord(body, Chars("nan"), Chars("NAN")) -> Some(NumOf("float", FALSE, <<"0">>, 0, "NaN"))
         [] OTHER -> IF IsNone(exponent) \/ Len(whole) + Len(part) = 0 \/ ~All(whole, Digit) \/ ~All(part, Digit) THEN None
                     ELSE Some(Float(neg, whole \o part, exponent[1] - Len(part)))
\* Digits alone are an integer: a signed one after a minus sign, an unsigned one otherwise.
ParseNumber(cs) ==
    LET d == StripZeros(Unsigned(cs))
    IN IF ~All(Unsigned(cs), Digit) THEN ParseFloat(cs)
       ELSE IF Len(Unsigned(cs)) = 0 THEN None
       ELSE IF cs[1] = "-" THEN (IF BigLeq(d, I64MinAbs) THEN Some(SInt(d # <<"0">>, d)) ELSE None)
       ELSE IF BigLeq(d, U64Max) THEN Some(UInt(d)) ELSE None

(***************************************************************************)
(* Printing.                                                               *)
(***************************************************************************)
Zeros(n) == [i \in 1..n |-> "0"]
ShowNumber(n) ==
    LET m == Len(n.sig) + n.exp
        body == IF n.name # "" THEN n.name
                ELSE IF n.exp >= 0 THEN Join(n.sig \o (IF n.sig = <<"0">> THEN <<>> ELSE Zeros(n.exp)))
                ELSE IF m > 0 THEN Join(SubSeq(n.sig, 1, m)) \o "." \o Join(DropFirst(n.sig, m))
                ELSE "0." \o Join(Zeros(0 - m) \o n.sig)
    IN (IF n.neg THEN "-" ELSE "") \o body
IntText(i) == IF i < 0 THEN "-" \o NatStr(0 - i) ELSE NatStr(i)
ShowExp(n, e) ==
    LET s == Normal(n.sig, n.exp)
        body == IF n.name # "" THEN n.name
                ELSE s.sig[1] \o (IF Len(s.sig) > 1 THEN "." \o Join(Tail(s.sig)) ELSE "")
                     \o e \o IntText(Len(s.sig) + s.exp - 1)
    IN (IF n.neg THEN "-" ELSE "") \o body

(***************************************************************************)
(* Converting: only to a type that has the very value.                     *)
(***************************************************************************)
I32MaxAbs == Chars("2147483647")
I32MinAbs == Chars("2147483648")
AsU64(n) == IF n.k = "float" \/ n.neg THEN None ELSE Some(Join(n.sig))
AsI64(n) == IF n.k = "float" \/ ~BigLeq(n.sig, IF n.neg THEN I64MinAbs ELSE I64Max) THEN None ELSE Some(ShowNumber(n))
AsF64(n) ==
    CASE n.k = "float" -> Some(ShowNumber(n))
      [] n.k = "uint" -> IF BigLeq(n.sig, U32Max) THEN Some(Join(n.sig)) ELSE None
      [] n.k = "int" -> IF BigLeq(n.sig, IF n.neg THEN I32MinAbs ELSE I32MaxAbs) THEN Some(ShowNumber(n)) ELSE None
YamlNumber(n) == [t |-> IF n.k = "float" THEN "f" ELSE "i", v |-> ShowNumber(n)]
ViewNumber(n) ==
    [kind |-> n.k, text |-> ShowNumber(n), exp |-> <<ShowExp(n, "e"), ShowExp(n, "E")>>,
     u64 |-> AsU64(n), i64 |-> AsI64(n), f64 |-> AsF64(n), yaml |-> YamlNumber(n)]

\* A scalar of any type: [k |-> "bool" | "string" | "number", v, n]
TextScalar(s) == [k |-> "string", s |-> s, n |-> ParseNumber(Chars(s))]
BoolScalar(b) == [k |-> "bool", s |-> IF b THEN "true" ELSE "false", n |-> Some(UInt(<<IF b THEN "1" ELSE "0">>))]
NumberScalar(n) == [k |-> n.k, s |-> ShowNumber(n), n |-> Some(n)]
ParseScalar(s) ==
    IF s \in {"true", "false"} THEN BoolScalar(s = "true")
    ELSE LET n == ParseNumber(Chars(s)) IN IF IsSome(n) THEN NumberScalar(n[1]) ELSE TextScalar(s)
ParseStrNum(s) == LET n == ParseNumber(Chars(s)) IN IF IsSome(n) THEN NumberScalar(n[1]) ELSE TextScalar(s)
YamlScalar(x) ==
    CASE x.k = "string" -> [t |-> "s", v |-> x.s] [] x.k = "bool" -> [t |-> "b", v |-> x.s] [] OTHER -> YamlNumber(x.n[1])
Through(f(_), o) == IF IsNone(o) THEN None ELSE f(o[1])
ViewScalar(x) ==
    [kind |-> x.k, text |-> x.s, number |-> IF IsNone(x.n) THEN None ELSE Some(ViewNumber(x.n[1])),
     u64 |-> Through(AsU64, x.n), i64 |-> Through(AsI64, x.n), f64 |-> Through(AsF64, x.n),
     bool |-> IF x.k = "bool" THEN Some(x.s) ELSE None, yaml |-> YamlScalar(x)]
ViewStrNum(x) ==
    [kind |-> x.k, text |-> x.s, number |-> IF IsNone(x.n) THEN None ELSE Some(ViewNumber(x.n[1])), yaml |-> YamlScalar(x)]

EvalScalarText(op, s) ==
    LET n == ParseNumber(Chars(s))
    IN CASE op = "value.parse" ->
                [value |-> ViewScalar(ParseScalar(s)), strnum |-> ViewStrNum(ParseStrNum(s)),
                 number |-> IF IsNone(n) THEN None ELSE Some(ViewNumber(n[1]))]
         [] op = "value.text" -> [value |-> ViewScalar(TextScalar(s)), strnum |-> ViewStrNum(TextScalar(s))]
\* A scalar of some type put in, or a node of a document read.
ScalarOf(t, v) ==
    LET cs == Chars(v)
        neg == Len(cs) > 0 /\ cs[1] = "-"
        d == Unsigned(cs)
    IN CASE t = "u64" -> NumberScalar(UInt(cs))
         [] t = "i64" -> NumberScalar(SInt(neg, d))
         [] t = "f64" -> NumberScalar(ParseFloat(cs)[1])
         [] t = "bool" -> BoolScalar(v = "true")
         [] t = "s" -> TextScalar(v)
         [] t = "b" -> BoolScalar(v = "true")
         [] t = "f" -> NumberScalar(ParseFloat(cs)[1])
         [] t = "i" -> NumberScalar(IF neg THEN SInt(TRUE, d) ELSE UInt(cs))
EvalScalarOf(in) == [value |-> ViewScalar(ScalarOf(in.t, in.v)),
                     strnum |-> IF in.t = "bool" THEN None ELSE Some(ViewStrNum(ScalarOf(in.t, in.v)))]
EvalScalarRead(in) ==
    LET takes(ts) == in.t \in ts
        x == ScalarOf(in.t, in.v)
    IN [value |-> IF takes({"b", "i", "f", "s"}) THEN Some(ViewScalar(x)) ELSE None,
        strnum |-> IF takes({"i", "f", "s"}) THEN Some(ViewStrNum(x)) ELSE None,
        number |-> IF takes({"i", "f"}) THEN Some(ViewNumber(x.n[1])) ELSE None,
        maybe |-> IF takes({"z"}) THEN "none" ELSE IF takes({"b", "i", "f", "s"}) THEN "some" ELSE "refused"]
ScalarOps == {"value.parse", "value.text"}
\* Texts denoting a float which the specification has no opinion on.
TractableScalar(s) == LET n == ParseNumber(Chars(s)) IN IsNone(n) \/ Exact(n[1])
=============================================================================
