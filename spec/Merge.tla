-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merge keys: << in a mapping stands for the entries of the mapping, or   *)
(* of each of the list of mappings, under it.  An explicit key, and an     *)
(* earlier source, wins.  A << in something merged is merged there first.  *)
(***************************************************************************)
EXTENDS Schema

MergeKey == "<<"
\* x with the entries of y that it has no key for.
Joined(x, y) == [x EXCEPT !.c = @ \o SelectSeq(y.c, LAMBDA e : ~HasKey(x, e.k))]
RECURSIVE Merged(_)
MergedHere(x) ==
    IF ~HasKey(x, MergeKey) THEN Some(x)
    ELSE LET src == Entry(x, MergeKey)
             own == Without(x, MergeKey)
         IN IF IsMap(src) THEN Some(Joined(own, src))
            ELSE IF IsList(src) /\ \A i \in 1..Len(src.c) : IsMap(src.c[i])
            THEN Some(FoldLeft(Joined, own, src.c))
            ELSE None
Merged(x) ==
    IF x.t \notin {"l", "m"} THEN Some(x)
    ELSE LET rs == Map(Merged, x.c)
         IN IF \E i \in 1..Len(rs) : IsNone(rs[i]) THEN None
            ELSE LET y == [x EXCEPT !.c = Map(LAMBDA r : r[1], rs)]
                 IN IF IsMap(x) THEN MergedHere(y) ELSE Some(y)
\* No merge key left, anywhere.
RECURSIVE MergeFree(_)
MergeFree(x) == (x.t = "m" => ~HasKey(x, MergeKey)) /\ \A i \in 1..Len(x.c) : MergeFree(x.c[i])
\* The order of keys is left open, all the way down.
RECURSIVE Unordered(_)
Unordered(x) == [x EXCEPT !.t = IF @ = "m" THEN "o" ELSE @, !.c = Map(Unordered, x.c)]

Understood(doc) ==
    LET c == Canon(Document, doc) IN IF IsNone(c) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, tree |-> Unordered(c[1])]
EvalMerge(merge, doc) ==
    IF ~merge THEN Understood(doc)
    ELSE LET m == Merged(doc) IN IF IsNone(m) THEN [ok |-> FALSE] ELSE Understood(m[1])
=============================================================================
