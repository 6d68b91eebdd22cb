-------------------------------- MODULE Twins --------------------------------
(***************************************************************************)
(* Two of a kind which differ in one place, if at all: in a setting, in an *)
(* extension, or only in the order of things.  Two documents are equal     *)
(* exactly when they say the same, and a list of both keeps both.          *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Focus, Part, Parts, Op
VARIABLES section, one, two, how
vars == <<section, one, two, how>>
T == Tier = "thorough"

Fs == [a \in Focus |-> SectionOf(a).fs]
Values == [a \in Focus |-> [i \in 1..Len(Fs[a]) |-> Good(Fs[a][i].ty)]]
Extended(x) == [x EXCEPT !.c = @ \o <<Key("x-1", Num("1")), Key("x-2", Dict(<<Key("b", Nil), Key("a", Lst(<<Txt("p"), Txt("q")>>))>>))>>]
Starts == [a \in Focus |-> LET some == <<Minimal(a), Full(a, 1), Full(a, 2)>> \o (IF T THEN <<Full(a, 3), Full(a, 4), Full(a, 5)>> ELSE <<>>)
                           IN some \o (IF SectionOf(a).ext THEN <<Extended(Minimal(a))>> ELSE <<>>)]
Mine == [a \in Focus |-> {i \in 1..Len(Fs[a]) : i % Parts = Part}]
Long == [a \in Focus |-> Len(Fs[a]) > 20]
Changed(x, f, v) == [x EXCEPT !.c = IF HasKey(x, f) THEN [i \in 1..Len(@) |-> IF @[i].k = f THEN Key(f, v) ELSE @[i]] ELSE Append(@, Key(f, v))]
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Init == \E a \in Focus : \E i \in 1..Len(Starts[a]) : section = a /\ one = Starts[a][i] /\ two = one /\ how = IF i = 1 THEN "bare" ELSE "full"
Next ==
    /\ how \in {"bare", "full"} /\ UNCHANGED <<section, one>>
    /\ \/ \E i \in Mine[section] :
            LET f == Fs[section][i].f
                vs == Values[section][i]
            IN /\ how' = f
               /\ \/ \E j \in 1..Len(vs) : (how = "full" /\ Long[section] /\ ~T => j <= 3) /\ two' = Changed(one, f, vs[j])
                  \/ HasKey(one, f) /\ two' = Without(one, f)
                  \/ HasKey(one, f) /\ Len(Entry(one, f).c) > 1 /\ two' = Changed(one, f, [Entry(one, f) EXCEPT !.c = Backwards(@)])
                  \/ HasKey(one, f) /\ Len(Entry(one, f).c) > 1 /\ two' = Changed(one, f, [Entry(one, f) EXCEPT !.c = Tail(@)])
       \/ /\ Part = 0 /\ how' = "order" /\ two' \in {[one EXCEPT !.c = Backwards(@)], Reversed(one), Rotated(one)}
       \/ /\ Part = 0 /\ how' = "extensions" /\ SectionOf(section).ext
          /\ \/ two' \in {Changed(one, "x-1", Num("2")), Changed(one, "x-1", Txt("1")), Changed(one, "x-3", Nil), Without(one, "x-1"), Without(one, "x-ext"),
                         Changed(one, "x-2", Dict(<<Key("a", Lst(<<Txt("p"), Txt("q")>>)), Key("b", Nil)>>)),
                         Changed(one, "x-2", Dict(<<Key("b", Nil), Key("a", Lst(<<Txt("q"), Txt("p")>>))>>))}
             \/ HasKey(one, "x-1") /\ two' = [Without(one, "x-1") EXCEPT !.c = Append(@, Key("x-1", Num("1")))]

RECURSIVE Beside(_)
\* Where one stands alone in a list, two stands beside it.
Beside(t) ==
    IF IsList(t) /\ Len(t.c) = 1 /\ Bare(t.c[1]) = one THEN [t EXCEPT !.c = <<one, two>>]
    ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Beside(t.c[i])]]
DocOne == Placed(section, one)
DocTwo == Placed(section, two)
Together == Beside(DocOne)
Judged(d) == Settled(d) /\ ~Somewhere("choice", Document, d)
Emit ==
    how \notin {"bare", "full"} =>
    IF Op = "doc.equal"
    THEN /\ Judged(DocOne) /\ Judged(DocTwo) =>
            LET a == Canon(Document, DocOne)
                b == Canon(Document, DocTwo)
                same == Equal(Document, a[1], b[1])
            IN IsSome(a) /\ IsSome(b) =>
               /\ same = Equal(Document, b[1], a[1])
               /\ PrintT("CASE " \o ToJson([op |-> Op, in |-> [a |-> DocOne, b |-> DocTwo], out |-> [ok |-> TRUE, same |-> same]]))
    ELSE Together # DocOne /\ Judged(Together) =>
            LET c == Canon(Document, Together)
            IN PrintT("CASE " \o ToJson([op |-> Op, in |-> Together,
                                         out |-> IF IsSome(c) THEN [ok |-> TRUE, tree |-> c[1]] ELSE [ok |-> FALSE]]))
=============================================================================
