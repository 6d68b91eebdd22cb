-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* YAML documents as trees.  A node has a kind t                           *)
(*   z null, b boolean, i integer, f float, s text, l list, m mapping      *)
(* (and o, for expected outputs only: a mapping whose order is left open), *)
(* a text v (scalars), children c (lists and mappings), and, as an entry   *)
(* of a mapping, its key k.                                                *)
(***************************************************************************)
EXTENDS Str

Node(t, v, c) == [k |-> "", t |-> t, v |-> v, c |-> c]
Nil == Node("z", "", <<>>)
Txt(s) == Node("s", s, <<>>)
Num(s) == Node("i", s, <<>>)
Flo(s) == Node("f", s, <<>>)
Bool(b) == Node("b", IF b THEN "true" ELSE "false", <<>>)
Lst(items) == Node("l", "", items)
Dict(entries) == Node("m", "", entries)
Key(k, x) == [x EXCEPT !.k = k]
Bare(x) == [x EXCEPT !.k = ""]

IsText(x) == x.t = "s"
IsMap(x) == x.t = "m"
IsList(x) == x.t = "l"
IsTrue(x) == x.t = "b" /\ x.v = "true"
HasKey(x, k) == \E i \in 1..Len(x.c) : x.c[i].k = k
\* The entry of a mapping under a key it has.
Entry(x, k) == x.c[CHOOSE i \in 1..Len(x.c) : x.c[i].k = k]
Without(x, k) == [x EXCEPT !.c = SelectSeq(@, LAMBDA y : y.k # k)]
KeysOf(x) == {x.c[i].k : i \in 1..Len(x.c)}
EmptyCollection(x) == x.t \in {"l", "m", "o"} /\ Len(x.c) = 0

\* Drop later items of a list that say the same as an earlier one.
Deduplicated(items) ==
    FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, items)

\* Everything in a mapping, in the opposite order, all the way down.
RECURSIVE Reversed(_)
Reversed(x) ==
    IF x.t = "m" THEN [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Reversed(x.c[Len(x.c) + 1 - i])]]
    ELSE IF x.t = "l" THEN [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Reversed(x.c[i])]]
    ELSE x
\* Every mapping starting from its second entry.
RECURSIVE Rotated(_)
Rotated(x) ==
    IF x.t = "m" /\ Len(x.c) > 0
    THEN [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Rotated(x.c[(i % Len(x.c)) + 1])]]
    ELSE IF x.t = "l" THEN [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Rotated(x.c[i])]]
    ELSE x

RECURSIVE TreeSize(_)
TreeSize(x) == 1 + FoldLeft(LAMBDA n, y : n + TreeSize(y), 0, x.c)
\* What was written, as something to read.
RECURSIVE AsInput(_)
AsInput(x) == [x EXCEPT !.t = IF @ = "o" THEN "m" ELSE @, !.c = [i \in 1..Len(x.c) |-> AsInput(x.c[i])]]
\* Whether JSON can say it, too: it has no infinities.
RECURSIVE Sayable(_)
Sayable(x) == ~(x.t = "f" /\ x.v \in {".inf", "-.inf", ".nan"}) /\ \A i \in 1..Len(x.c) : Sayable(x.c[i])
=============================================================================
