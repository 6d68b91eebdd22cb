------------------------------- MODULE Twice -------------------------------
(***************************************************************************)
(* A setting is given twice in one section: by mistake, because both       *)
(* cannot be meant; so the document is refused, and neither of the two is  *)
(* silently dropped.                                                       *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus, Part, Parts
VARIABLES section, field, values, apart
vars == <<section, field, values, apart>>
T == Tier = "thorough"
S == [a \in Focus |-> SectionOf(a)]
Long == [a \in Focus |-> Len(S[a].fs) > 20]
FieldNames == [a \in Focus |-> {S[a].fs[i].f : i \in 1..Len(S[a].fs)}]
Index(a, f) == CHOOSE i \in 1..Len(S[a].fs) : S[a].fs[i].f = f
Mine == [a \in Focus |-> {f \in FieldNames[a] : Index(a, f) % Parts = Part}]
Clear(x) == Sayable(x)
Values == [a \in Focus |-> [f \in FieldNames[a] |->
              LET good == SelectSeq(Good(S[a].by[f].ty), Clear)
              IN SubSeq(good, 1, Min({Len(good), IF T THEN 6 ELSE 3})) \o IF S[a].by[f].m = "opt" THEN <<Nil>> ELSE <<>>]]
Starts == [a \in Focus |-> <<Minimal(a), Full(a, 1)>>]
Others(f, entries) == SelectSeq(entries, LAMBDA y : y.k # f)
\* What stands before, between and after.
Spread(f, x, y, n) ==
    LET rest == Others(f, Starts[section][IF n \in {1, 2} THEN 1 ELSE 2].c)
        half == Len(rest) \div 2
    IN IF n % 2 = 1 THEN rest \o <<Key(f, x), Key(f, y)>>
       ELSE <<Key(f, x)>> \o SubSeq(rest, 1, half) \o SubSeq(rest, half + 1, Len(rest)) \o <<Key(f, y)>>
Once(f, x) == Others(f, Starts[section][1].c) \o <<Key(f, x)>>

Init == /\ section \in Focus /\ field = "" /\ values = <<>> /\ apart = 0
\* Once, which may well be accepted; and then once more.
Give == /\ field = "" /\ UNCHANGED section /\ apart' = 0
        /\ \E f \in Mine[section] : \E i \in 1..Len(Values[section][f]) :
              field' = f /\ values' = <<Values[section][f][i]>>
Again == /\ Len(values) = 1 /\ UNCHANGED <<section, field>>
         /\ \E j \in 1..Len(Values[section][field]) :
               /\ (Long[section] /\ ~T) => values[1] = Values[section][field][1] \/ j = 1
               /\ values' = Append(values, Values[section][field][j])
         /\ apart' \in IF Long[section] /\ ~T THEN {1, 2} ELSE 1..4
Next == Give \/ Again
Doc == Placed(section, Dict(IF apart = 0 THEN Once(field, values[1]) ELSE Spread(field, values[1], values[2], apart)))
Out == IF apart = 0 THEN Canon(Document, Doc) ELSE None
Emit == field # "" => PrintT("CASE " \o ToJson([op |-> "doc.twice", in |-> Doc, out |-> [ok |-> IsSome(Out)]]))
=============================================================================
