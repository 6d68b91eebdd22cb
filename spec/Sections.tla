------------------------------ MODULE Sections ------------------------------
(***************************************************************************)
(* A user writes one section of a document, a setting at a time, well or   *)
(* badly, starting from as little or as much as there can be; the rest of  *)
(* the document is minimal.                                                *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus, Part, Parts, Op
VARIABLES section, entries, steps, open
vars == <<section, entries, steps, open>>
T == Tier = "thorough"
S == [a \in Focus |-> SectionOf(a)]
FieldNames == [a \in Focus |-> {S[a].fs[i].f : i \in 1..Len(S[a].fs)}]
\* A long section is explored in several parts, and with fewer values per pair of fields.
Long == [a \in Focus |-> Len(S[a].fs) > 20]
Index(a, f) == CHOOSE i \in 1..Len(S[a].fs) : S[a].fs[i].f = f
Mine == [a \in Focus |-> {f \in FieldNames[a] : Index(a, f) % Parts = Part}]
TypeOf(a, f) == S[a].by[f].ty
Values == [a \in Focus |-> [f \in FieldNames[a] |-> Good(TypeOf(a, f))]]
Judged(a, f, x) ==
    /\ (S[a].by[f].m = "opt" /\ x.t = "z") \/ ~Somewhere("null", TypeOf(a, f), x)
    /\ ~Somewhere("big", TypeOf(a, f), x)
Probes == [a \in Focus |-> [f \in FieldNames[a] |->
               SelectSeq(Values[a][f] \o Bad(TypeOf(a, f)) \o Generic, LAMBDA x : Judged(a, f, x))]]
PairValues(a) == IF T THEN (IF Long[a] THEN 2 ELSE 4) ELSE (IF Long[a] THEN 1 ELSE 2)
Near(a, f, g) == T \/ ~Long[a] \/ Index(a, f) - Index(a, g) \in -4..4 \/ (Index(a, f) + 3 * Index(a, g)) % 8 = 0
Starts == [a \in Focus |-> <<Minimal(a), Full(a, 1), Full(a, 2)>>]
Strays == <<"bogus", "x", "X-a", "", "xx-", "x-a", "x-", "x-b c", "<<">>
StrayValues == <<Nil, Dict(<<Key("b", Nil), Key("a", Lst(<<Flo("1.5"), Txt("5")>>))>>)>>

Put(f, v) == SelectSeq(entries, LAMBDA y : y.k # f) \o <<Key(f, v)>>
PutFirst(f, v) == <<Key(f, v)>> \o SelectSeq(entries, LAMBDA y : y.k # f)
Init == \E a \in Focus : \E n \in 1..Len(Starts[a]) :
            /\ section = a /\ entries = Starts[a][n].c /\ steps = 0
            /\ open = IF n = 1 THEN "minimal" ELSE "full"
First2 ==
    /\ steps = 0 /\ steps' = 1 /\ UNCHANGED section
    /\ \/ \E f \in Mine[section] : \E i \in 1..Len(Probes[section][f]) :
            /\ (open = "full" /\ Long[section] /\ ~T) => i = 1
            /\ entries' = Put(f, Probes[section][f][i])
            /\ open' = IF open = "minimal" /\ i <= PairValues(section) /\ i <= Len(Values[section][f]) THEN "more" ELSE "done"
       \/ \E f \in Mine[section] : /\ f \in {entries[i].k : i \in 1..Len(entries)}
                                   /\ entries' = SelectSeq(entries, LAMBDA y : y.k # f) /\ open' = "done"
       \/ \E i \in 1..Len(Strays), j \in 1..Len(StrayValues) :
            /\ Part = 0 /\ S[section].ext /\ (open = "full" /\ Long[section]) => i = 1
            /\ entries' = IF i % 2 = 0 THEN PutFirst(Strays[i], StrayValues[j]) ELSE Put(Strays[i], StrayValues[j])
            /\ open' = "done"
Second2 ==
    /\ steps = 1 /\ open = "more" /\ steps' = 2 /\ open' = "done" /\ UNCHANGED section
    /\ LET last == entries[Len(entries)].k
       IN \/ \E f \in FieldNames[section] \ {last} : \E i \in 1..Len(Values[section][f]) :
                /\ i <= PairValues(section) /\ Near(section, last, f)
                /\ entries' = Put(f, Values[section][f][i])
          \/ S[section].ext /\ entries' = PutFirst("x-z", Num("1"))
Next == First2 \/ Second2

Doc == Placed(section, Dict(entries))
Out == Canon(Document, Doc)
\* What is written is acceptable, and written the same again.
Fixpoint == T => LET c == Out IN IsSome(c) => Canon(Document, AsInput(c[1])) = c
\* The order of keys is of no consequence to acceptance.
OrderFree == T => IsSome(Canon(Document, Rotated(Doc))) = IsSome(Out)
Case(out) == PrintT("CASE " \o ToJson([op |-> Op, in |-> Doc, out |-> out]))
Emit ==
    CASE Op = "doc.accept" -> Case([ok |-> IsSome(Out)])
      [] Op = "doc.write" -> LET c == Out IN IF IsSome(c) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE TRUE
      [] Op = "doc.json" -> LET c == Out IN IF IsSome(c) /\ Sayable(Doc) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE TRUE
      [] Op = "doc.roundtrip" -> IF Somewhere("choice", Document, Doc) THEN TRUE ELSE Case([survives |-> TRUE])
      [] Op = "doc.order" -> Case([ok |-> IsSome(Out), same |-> TRUE])
=============================================================================
