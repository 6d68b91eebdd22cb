------------------------------- MODULE Merging -------------------------------
(***************************************************************************)
(* A mapping somewhere in a document has settings of its own and merges    *)
(* others: one mapping, a list of them, mappings which merge in turn, or   *)
(* what cannot be merged.                                                  *)
(***************************************************************************)
EXTENDS Merge, Samples, Json
CONSTANTS Tier, Focus
VARIABLES place, own, sources, how
vars == <<place, own, sources, how>>
T == Tier = "thorough"

\* Mappings with keys of the user's, and where they live.
UserMaps == {"services", "environment", "labels", "driver_opts", "networks", "depends_on", "ulimits", "extra_hosts", "extension", "item", "nested"}
At1(p, x) ==
    CASE p = "services" -> Dict(<<Key("services", x)>>)
      [] p = "environment" -> InService("environment", x)
      [] p = "labels" -> DocWith(<<Key("volumes", Dict(<<Key("v", Dict(<<Key("labels", x)>>))>>))>>)
      [] p = "driver_opts" -> DocWith(<<Key("networks", Dict(<<Key("n", Dict(<<Key("driver_opts", x)>>))>>))>>)
      [] p = "networks" -> InService("networks", x)
      [] p = "depends_on" -> InService("depends_on", x)
      [] p = "ulimits" -> InService("ulimits", x)
      [] p = "extra_hosts" -> InService("extra_hosts", x)
      [] p = "extension" -> InService("x-a", x)
      [] p = "item" -> DocWith(<<Key("x-list", Lst(<<Num("1"), x>>))>>)
      [] p = "nested" -> InDeploy("x-a", Dict(<<Key("deep", Lst(<<Dict(<<Key("er", x)>>)>>))>>))
      [] OTHER -> Placed(p, x)
Elements(p) ==
    CASE p = "services" -> <<Dict(<<Key("image", Txt("i"))>>), Dict(<<Key("init", Bool(TRUE)), Key("x-s", Nil)>>), Dict(<<Key("bogus", Nil)>>)>>
      [] p = "networks" -> <<Nil, Dict(<<Key("priority", Num("1"))>>), Txt("no")>>
      [] p = "depends_on" -> <<Dict(<<Key("condition", Txt("service_healthy"))>>), Dict(<<Key("condition", Txt("service_started")), Key("restart", Bool(TRUE))>>), Nil>>
      [] p = "ulimits" -> <<Num("5"), Dict(<<Key("soft", Num("1")), Key("hard", Num("2"))>>), Txt("no")>>
      [] p = "extra_hosts" -> <<Txt("::1"), Txt("10.0.0.1"), Txt("no")>>
      [] OTHER -> <<Txt("one"), Num("2"), Dict(<<Key("b", Nil), Key("a", Num("1"))>>)>>
Only(x, n) == Dict(SubSeq(x.c, n, IF Len(x.c) < n THEN Len(x.c) ELSE n))
UserMap(p, n) ==
    LET e == Elements(p)
        k(i) == IF p = "ulimits" THEN <<"nofile", "core", "nproc">>[i] ELSE <<"a", "b", "c">>[i]
    IN CASE n = 1 -> Dict(<<Key(k(1), e[1])>>)
         [] n = 2 -> Dict(<<Key(k(1), e[2]), Key(k(2), e[1])>>)
         [] n = 3 -> Dict(<<Key(k(2), e[2]), Key(k(3), e[1])>>)
         [] n = 4 -> Dict(<<>>)
         [] n = 5 -> Dict(<<Key(k(1), e[3])>>)
Fragments(p) ==
    IF p \in UserMaps THEN <<UserMap(p, 1), UserMap(p, 2), UserMap(p, 3), UserMap(p, 5)>>
    ELSE <<Minimal(p), Full(p, 2), Only(Full(p, 1), 2), Dict(<<Key("x-m", Num("1"))>>), Dict(<<Key("bogus", Nil)>>)>>
Owns(p) ==
    IF p \in UserMaps THEN <<UserMap(p, 4), UserMap(p, 1), UserMap(p, 3)>>
    ELSE <<Dict(<<>>), Minimal(p), Only(Full(p, 1), 1), Only(Full(p, 2), 2)>> \o IF T THEN <<Full(p, 1)>> ELSE <<>>
Big1(p) == p \in {"Service", "Build"} /\ ~T

Init == /\ place \in Focus
        /\ \E i \in 1..Len(Owns(place)) : own = Owns(place)[i]
        /\ sources = <<>> /\ how = "none"
\* Another source: merged alongside, or by the last one.
Alongside == \E i \in 1..Len(Fragments(place)) :
                /\ how \in {"none", "list"} /\ Len(sources) < (IF T THEN 3 ELSE 2)
                /\ sources' = Append(sources, Fragments(place)[i]) /\ how' = "list"
Within1 == \E i \in 1..Len(Fragments(place)) :
                /\ how \in {"list", "chain"} /\ Len(sources) \in 1..(IF T THEN 2 ELSE 1)
                /\ sources' = Append(sources, Fragments(place)[i]) /\ how' = "chain"
Wrong == \E x \in {Nil, Num("1"), Txt("a"), Lst(<<Nil>>), Lst(<<Dict(<<>>), Txt("a")>>), Lst(<<Lst(<<Dict(<<>>)>>)>>), Bool(TRUE), Lst(<<>>),
                   Dict(<<Key(MergeKey, Txt("a"))>>), Lst(<<Dict(<<Key(MergeKey, Lst(<<>>))>>)>>)} :
            how = "none" /\ how' = "wrong" /\ sources' = <<x>>
Next == ~(Big1(place) /\ Len(sources) = 1 /\ own.c = <<>>) /\ UNCHANGED <<place, own>> /\ (Alongside \/ Within1 \/ Wrong)

\* The first merges the next, and so on.
RECURSIVE Chained(_)
Chained(ss) == IF Len(ss) = 1 THEN ss[1] ELSE [ss[1] EXCEPT !.c = Append(@, Key(MergeKey, Chained(Tail(ss))))]
Source == CASE how = "wrong" -> sources[1]
            [] how = "chain" -> IF Len(sources) = 3 THEN Lst(<<Chained(<<sources[1], sources[3]>>), sources[2]>>) ELSE Chained(sources)
            [] how = "list" -> IF Len(sources) = 1 THEN sources[1] ELSE Lst(sources)
\* First or last among the others.
Mapping1 == IF how = "none" THEN own
            ELSE IF Len(own.c) % 2 = 1 THEN [own EXCEPT !.c = <<Key(MergeKey, Source)>> \o @] ELSE [own EXCEPT !.c = @ \o <<Key(MergeKey, Source)>>]
Doc == At1(place, Mapping1)
Relevant(doc, m) == Settled(doc) /\ (IsSome(m) => Settled(m[1]))
Case(merge) == PrintT("CASE " \o ToJson([op |-> "merge.read", in |-> [merge |-> merge, tree |-> Doc], out |-> EvalMerge(merge, Doc)]))

\* Merging leaves no merge keys, and nothing to be merged; without any, it changes nothing.
Complete == LET m == Merged(Doc) IN IsSome(m) => MergeFree(m[1]) /\ Merged(m[1]) = m
Unneeded == MergeFree(Doc) => Merged(Doc) = Some(Doc)
\* One's own settings are as they were.
OwnWins == LET m == Merged(Mapping1) IN IsSome(m) => \A i \in 1..Len(own.c) : Some(Bare(Entry(m[1], own.c[i].k))) = Merged(Bare(own.c[i]))
\* A list of one is that one.
Emit == Relevant(Doc, Merged(Doc)) => Case(TRUE) /\ Case(FALSE)
=============================================================================
