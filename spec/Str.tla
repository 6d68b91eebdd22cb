-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Text, as the specification sees it: a text is a TLC string on the       *)
(* outside (so that it prints and reads as JSON) and a sequence of         *)
(* one-character strings on the inside (so that grammars can look at it).  *)
(* Optional values are sequences of length at most one, because JSON null  *)
(* has no TLA+ counterpart: None = <<>>, Some(x) = <<x>>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == <<>>
Some(x) == <<x>>
IsNone(o) == Len(o) = 0
IsSome(o) == Len(o) = 1

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Join(cs) == FoldLeft(LAMBDA a, b : a \o b, "", cs)

\* Concatenate a sequence of strings with a separator string.
JoinWith(ss, sep) ==
    IF Len(ss) = 0 THEN ""
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

Digit == {"0","1","2","3","4","5","6","7","8","9"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letter == Lower \cup Upper
Alnum == Letter \cup Digit
LowerAlnum == Lower \cup Digit
HexDigit == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

DigitVal(c) ==
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
      [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
      [] c = "8" -> 8 [] c = "9" -> 9
HexVal(c) ==
    CASE c \in Digit -> DigitVal(c)
      [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
      [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>

All(cs, S) == \A i \in 1..Len(cs) : cs[i] \in S
Has(cs, c) == \E i \in 1..Len(cs) : cs[i] = c
Count(cs, c) == Cardinality({i \in 1..Len(cs) : cs[i] = c})

\* Position of the first / last occurrence of a character, 0 when absent.
First(cs, c) ==
    IF Has(cs, c) THEN CHOOSE i \in 1..Len(cs) :
        cs[i] = c /\ \A j \in 1..(i-1) : cs[j] # c
    ELSE 0
LastPos(cs, c) ==
    IF Has(cs, c) THEN CHOOSE i \in 1..Len(cs) :
        cs[i] = c /\ \A j \in (i+1)..Len(cs) : cs[j] # c
    ELSE 0
Before(cs, i) == SubSeq(cs, 1, i - 1)
After(cs, i) == SubSeq(cs, i + 1, Len(cs))

\* Split at every occurrence of c; always at least one (possibly empty) piece.
RECURSIVE Split(_, _)
Split(cs, c) ==
    LET i == First(cs, c)
    IN IF i = 0 THEN <<cs>> ELSE <<Before(cs, i)>> \o Split(After(cs, i), c)

StartsWith(cs, p) == Len(cs) >= Len(p) /\ SubSeq(cs, 1, Len(p)) = p
EndsWith(cs, p) == Len(cs) >= Len(p) /\ SubSeq(cs, Len(cs) - Len(p) + 1, Len(cs)) = p
DropLast(cs, n) == SubSeq(cs, 1, Len(cs) - n)
DropFirst(cs, n) == SubSeq(cs, n + 1, Len(cs))

\* A mapping function over sequences.
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

\* Natural number (below 2^31) to text.
RECURSIVE NatStr(_)
NatStr(n) ==
    IF n < 10 THEN HexDigits[n + 1]
    ELSE NatStr(n \div 10) \o HexDigits[(n % 10) + 1]
=============================================================================
