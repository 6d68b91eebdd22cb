----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* A user writes whole documents, with any sections and settings together, *)
(* and then spoils them in some place: random walks (TLC's simulation, its *)
(* seed fixing the choices), for what the exhaustive machine Sections does *)
(* not combine.                                                            *)
(***************************************************************************)
EXTENDS Samples, Json
CONSTANTS Tier, Op, Lane
VARIABLES doc, n
Rounds == 10000

Pick(s) == s[RandomElement(1..Len(s))]
Chance(k, outof) == RandomElement(1..outof) <= k

Exclusive(a) ==
    CASE a = "Service" -> <<"network_mode", "networks">> [] a = "Build" -> <<"dockerfile", "dockerfile_inline">>
      [] a = "CredentialSpec" -> <<"config", "file", "registry">> [] a = "Config" -> <<"file", "environment", "content">>
      [] a = "Secret" -> <<"file", "environment">> [] a = "Healthcheck" -> <<"interval", "disable">> [] OTHER -> <<>>
\* Of the alternatives, all but one are ruled out.
RuledOut(a) ==
    LET g == Exclusive(a)
        keep == RandomElement(1..(IF Len(g) = 0 THEN 1 ELSE Len(g)))
    IN {g[i] : i \in (1..Len(g)) \ {keep}}
Shuffled(es) ==
    LET k == RandomElement(1..6)
        d == Dict(es)
    IN CASE k = 1 -> Reversed(d) [] k = 2 -> Rotated(d) [] OTHER -> d

RECURSIVE Fresh(_), FreshSection(_, _), FreshList(_, _), FreshEntries(_, _, _)
FreshList(t, k) == IF k = 0 THEN <<>> ELSE <<Fresh(t)>> \o FreshList(t, k - 1)
FreshEntries(ty, ks, i) ==
    IF i > Len(ks) THEN <<>>
    ELSE (IF Chance(1, 2) THEN <<Key(ks[i], IF ty.g = "nmap" /\ Chance(1, 4) THEN Nil ELSE Fresh(ty.s[1]))>> ELSE <<>>)
         \o FreshEntries(ty, ks, i + 1)
FreshMount == LET a == Pick(<<"MountVolume", "MountBind", "MountTmpfs", "MountNpipe", "MountCluster">>) IN FreshSection(a, {})
FreshSection(a, without) ==
    LET sec == SectionOf(a)
        out == RuledOut(a) \cup without
        need == {Alternatives(a)[i] : i \in 1..Len(Alternatives(a))} # {}
        odds == IF Len(sec.fs) > 50 THEN 10 ELSE IF Len(sec.fs) > 15 THEN 30 ELSE 50
        value(f) == IF f.f = "type" /\ Len(MountTypeOf(a)) = 1 THEN Txt(MountTypeOf(a)[1])
                    ELSE IF f.m = "opt" /\ Chance(1, 12) THEN Nil ELSE Fresh(f.ty)
        forced(f) == f.m = "req" \/ (need /\ f.f \in {Exclusive(a)[i] : i \in 1..Len(Exclusive(a))})
        put(acc, f) == IF f.f \in out THEN acc
                       ELSE IF forced(f) THEN Append(acc, Key(f.f, IF f.m = "req" THEN value(f) ELSE Fresh(f.ty)))
                       ELSE IF Chance(odds, 100) THEN Append(acc, Key(f.f, value(f))) ELSE acc
        es == FoldLeft(put, <<>>, sec.fs)
        more == IF sec.ext /\ Chance(1, 3) THEN <<Key(Pick(<<"x-a", "x-", "x-b c">>), Pick(GoodLeaf("any")))>> ELSE <<>>
    IN Shuffled(es \o more)
Fresh(ty) ==
    CASE ty.g \in {"leaf", "kw"} -> Pick(Good(ty))
      [] ty.g \in {"list", "set"} -> Lst(FreshList(ty.s[1], RandomElement(0..3)))
      [] ty.g \in {"map", "nmap"} -> Dict(FreshEntries(ty, GoodKeys(ty.a), 1))
      [] ty.g = "or" -> Fresh(Pick(SelectSeq(ty.s, LAMBDA t : t # Never)))
      [] ty.g = "sec" -> FreshSection(ty.a, {})
      [] ty.g = "own" ->
            CASE ty.a = "mount" -> FreshMount
              [] ty.a \in {"test", "extra_hosts", "contexts"} -> Pick(Good(ty))
              [] Chance(1, 3) -> Pick(Good(ty))
              [] ty.a = "network" -> FreshSection("Network", {})
              [] ty.a = "volume" -> FreshSection("Volume", {})
              [] ty.a = "config" -> FreshSection("Config", {})
              [] ty.a = "secret" -> FreshSection("Secret", {})
              [] ty.a = "healthcheck" -> FreshSection("Healthcheck", {"test", "disable"})

\* One place goes wrong.
RECURSIVE Spoilt(_, _), SpoiltSection(_, _)
SetChild(x, i, y) == [x EXCEPT !.c[i] = Key(x.c[i].k, y)]
SpoiltSection(a, x) ==
    LET by == SectionOf(a).by
        k == RandomElement(1..12)
        i == RandomElement(1..Len(x.c))
        stray == Pick(<<"bogus", "x", "", "X-a", "image", "type">>)
    IN IF Len(x.c) = 0 \/ k = 1 THEN Dict(<<Key(stray, Pick(Generic))>> \o Without(x, stray).c)
       ELSE IF k = 2 THEN Without(x, x.c[i].k)
       ELSE IF k = 3 THEN LET f == Pick(SectionOf(a).fs)
                          IN IF HasKey(x, f.f) THEN x ELSE Dict(Append(x.c, Key(f.f, Pick(Good(f.ty)))))
       ELSE IF x.c[i].k \in DOMAIN by THEN SetChild(x, i, Spoilt(by[x.c[i].k].ty, x.c[i])) ELSE x
Spoilt(ty, x) ==
    LET i == RandomElement(1..Len(x.c))
        wrong == Pick(Bad(ty) \o Generic)
    IN IF ty.g \in {"leaf", "kw"} \/ Chance(1, 10) THEN wrong
       ELSE IF ty.g = "sec" THEN SpoiltSection(ty.a, x)
       ELSE IF Len(x.c) = 0 THEN wrong
       ELSE CASE ty.g \in {"list", "set", "map", "nmap"} -> SetChild(x, i, Spoilt(ty.s[1], x.c[i]))
              [] ty.g = "or" -> IF IsList(x) THEN Spoilt(ty.s[2], x) ELSE IF IsMap(x) THEN Spoilt(ty.s[3], x) ELSE wrong
              [] ty.g = "own" ->
                    CASE ~IsMap(x) -> wrong
                      [] ty.a = "network" -> SpoiltSection("Network", x)
                      [] ty.a = "volume" -> SpoiltSection("Volume", x)
                      [] ty.a = "config" -> SpoiltSection("Config", x)
                      [] ty.a = "secret" -> SpoiltSection("Secret", x)
                      [] ty.a = "healthcheck" -> SpoiltSection("Healthcheck", x)
                      [] ty.a = "mount" /\ HasKey(x, "type") /\ IsSome(KeywordLeaf("mount_type", Entry(x, "type"))) ->
                            SpoiltSection(MountSectionOf(Entry(x, "type").v), x)
                      [] OTHER -> wrong

Init == doc = Dict(<<Key("services", Dict(<<>>))>>) /\ n = 0
Next ==
    /\ n < Rounds /\ n' = n + 1
    /\ doc' = IF n % 3 < 2 THEN FreshSection("Compose", {}) ELSE SpoiltSection("Compose", doc)

Out == Canon(Document, doc)
\* What is written is acceptable, and written the same again.
Fixpoint == LET c == Out IN IsSome(c) => Canon(Document, AsInput(c[1])) = c
\* The order of keys is of no consequence to acceptance.
OrderFree == IsSome(Canon(Document, Rotated(doc))) = IsSome(Out)
Case(out) == PrintT("CASE " \o ToJson([op |-> Op, in |-> doc, out |-> out]))
Emit ==
    IF Op = "total.tree" THEN PrintT("CASE " \o ToJson([op |-> Op, in |-> [tree |-> doc], out |-> [answers |-> TRUE]]))
    ELSE Settled(doc) =>
    CASE Op = "doc.accept" -> Case([ok |-> IsSome(Out)])
      [] Op = "doc.write" -> LET c == Out IN IF IsSome(c) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE Case([ok |-> FALSE])
      [] Op = "doc.json" -> LET c == Out IN IF IsSome(c) /\ Sayable(doc) THEN Case([ok |-> TRUE, tree |-> c[1]]) ELSE TRUE
      [] Op = "doc.roundtrip" -> IF Somewhere("choice", Document, doc) THEN TRUE ELSE Case([survives |-> TRUE])
      [] Op = "doc.order" -> Case([ok |-> IsSome(Out), same |-> TRUE])
=============================================================================
