-------------------------------- MODULE Lists --------------------------------
(***************************************************************************)
(* Settings which can be given as a list of "key=value" texts or as a      *)
(* mapping.  A user types a list, token by token and item by item, or      *)
(* writes a mapping entry by entry; each is read in every place which      *)
(* takes the two spellings, and converted into the other one.              *)
(***************************************************************************)
EXTENDS Samples, Numerals, Json
CONSTANTS Tier, Focus, How
VARIABLES items, entries
vars == <<items, entries>>
T == Tier = "thorough"

TypedTokens ==
    CASE Focus = "labels" -> {"k", "l", "=", ":", "5", "true", " ", "\n", "é", "-"}
      [] Focus = "hosts" -> {"h", "a.b", "=", ":", "[", "]", "::1", "1.2.3.4", "_"}
      [] Focus = "contexts" -> {"k", "=", "./d", "007", "1.50", " ", ":", "\n"}
ItemWords ==
    CASE Focus = "labels" -> {"k=v", "k=", "k", "l=5", "k=w", "l", "=x", "", "l=5.", "m=a=b"}
      [] Focus = "hosts" -> {"h=1.2.3.4", "g:::1", "h:[::2]", "g=[fe80::1]", "a.b=::ffff:1.2.3.4", "h", "x=[::1]:80", "y:1.2.3.4:5", "z=", "h=[1.2.3.4]"}
      [] Focus = "contexts" -> {"k=./d", "k=../e", "l=007", "l", "k=", "m=https://h.x/y", "=d", "", "n=docker-image://a:b"}
EntryKeys == CASE Focus = "labels" -> {"k", "a=b", "a:b", "k=5", "", "5"} [] Focus = "hosts" -> {"h", "a.b", "h-", "h=1.2.3.4", ""}
               [] Focus = "contexts" -> {"k", "a=b", "", "\n"}
EntryValues ==
    CASE Focus = "labels" -> {Nil, Txt(""), Txt("v"), Txt("b=c"), Txt("5"), Num("5"), Num("-5"), Bool(TRUE), Txt("true"), Flo("1.5"), Lst(<<>>)}
      [] Focus = "hosts" -> {Nil, Txt(""), Txt("1.2.3.4"), Txt("[::1]"), Txt("::1"), Txt("[1.2.3.4]"), Txt("[::1"), Txt("::1]"), Txt("[[::1]]"), Num("5")}
      [] Focus = "contexts" -> {Nil, Txt(""), Txt("./d"), Num("7"), Txt("007"), Bool(FALSE), Flo("1.5"), Lst(<<>>), Txt("https://h.x/")}

Tokens(its) == FoldLeft(LAMBDA n, it : n + Len(it), 0, its)
Init == items = <<>> /\ entries = <<>>
TypeOn(t) ==
    /\ \/ Len(items) > 0 /\ items' = [items EXCEPT ![Len(items)] = Append(@, t)]
       \/ Len(items) < (IF T THEN 3 ELSE 2) /\ items' = Append(items, <<t>>)
    /\ Tokens(items') <= (IF Len(items') = 1 THEN (IF T THEN 5 ELSE 4) ELSE (IF T THEN 4 ELSE 3))
EmptyItem == Len(items) < 2 /\ items' = Append(items, <<>>)
AddWord(w) == Len(items) < (IF T THEN 4 ELSE 3) /\ items' = Append(items, <<w>>)
Write(k, v) ==
    /\ Len(entries) < (IF T THEN 3 ELSE 2) /\ \A i \in 1..Len(entries) : entries[i].k # k
    /\ entries' = Append(entries, Key(k, v))
Next ==
    \/ How = "typed" /\ UNCHANGED entries /\ ((\E t \in TypedTokens : TypeOn(t)) \/ EmptyItem)
    \/ How = "words" /\ UNCHANGED entries /\ \E w \in ItemWords : AddWord(w)
    \/ How = "map" /\ UNCHANGED items /\ \E k \in EntryKeys, v \in EntryValues : Write(k, v)

ItemTexts == Map(LAMBDA it : Join(it), items)
Listed == Lst(Texts(ItemTexts))
Mapped == Dict(entries)
Tree == IF How = "map" THEN Mapped ELSE Listed

(***************************************************************************)
(* The conversions between the two.                                        *)
(***************************************************************************)
\* The entries that the items of a list denote; None when some key is not one.
ListAsMap(ss, seps) ==
    LET es == FoldLeft(LAMBDA acc, s : LET p == SplitItem(s, seps)
                                       IN PutEntry(acc, [k |-> p.key, v |-> IF IsNone(p.value) \/ p.value = Some("") THEN None
                                                                            ELSE Some(ParseScalar(p.value[1]))]), <<>>, ss)
    IN IF \A i \in 1..Len(es) : Is("key.map", Chars(es[i].k)) THEN Some(es) ELSE None
MapAsList(es) == Deduplicated(Map(LAMBDA e : IF IsNone(e.v) THEN e.k ELSE e.k \o "=" \o e.v[1].s, es))
ViewEntries(es) == Map(LAMBDA e : [k |-> e.k, v |-> IF IsNone(e.v) THEN <<>> ELSE <<e.v[1].k, e.v[1].s>>], es)
ViewMap(o) == IF IsNone(o) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, entries |-> ViewEntries(o[1])]
NodeScalar(x) == ScalarOf(x.t, x.v)
MapOfNodes(es) == Map(LAMBDA y : [k |-> y.k, v |-> IF y.t = "z" THEN None ELSE Some(NodeScalar(y))], es)

\* Converting a list into a map and back gives its items back, an empty value aside (later items for a key replacing earlier ones).
ThereAndBack ==
    (How # "map" /\ IsSome(ListAsMap(ItemTexts, {"="})) /\ \A i, j \in 1..Len(items) : i # j =>
        SplitItem(ItemTexts[i], {"="}).key # SplitItem(ItemTexts[j], {"="}).key)
    => LET without(s) == LET p == SplitItem(s, {"="}) IN IF p.value = Some("") THEN p.key ELSE s
           number(s) == LET p == SplitItem(s, {"="}) IN IsSome(p.value) /\ ParseScalar(p.value[1]).s # p.value[1]
       IN (\A i \in 1..Len(items) : ~number(ItemTexts[i]))
          => MapAsList(ListAsMap(ItemTexts, {"="})[1]) = Map(without, ItemTexts)
\* The two spellings of the same entries are the same setting.
Equivalent ==
    (How # "map" /\ Focus # "labels") =>
        LET es == AsEntries(Listed, IF Focus = "hosts" THEN {"=", ":"} ELSE {"="})[1]
        IN IF Focus = "hosts" THEN CanonHosts(Listed) = CanonHosts(Dict(es)) ELSE CanonContexts(Listed) = CanonContexts(Dict(es))

InBuild(f, x) == InService("build", Dict(<<Key(f, x)>>))
Places ==
    CASE Focus = "labels" -> <<InService("environment", Tree), InDeploy("labels", Tree), InService("sysctls", Tree), InBuild("args", Tree)>>
      [] Focus = "hosts" -> <<InService("extra_hosts", Tree), InBuild("extra_hosts", Tree)>>
      [] Focus = "contexts" -> <<InBuild("additional_contexts", Tree)>>
Case(op, in, out) == PrintT("CASE " \o ToJson([op |-> op, in |-> in, out |-> out]))
Documents1 ==
    \A i \in 1..Len(Places) :
        LET c == Canon(Document, Places[i])
        IN Case("doc.write", Places[i], IF IsSome(c) THEN [ok |-> TRUE, tree |-> c[1]] ELSE [ok |-> FALSE])
Convertible == How # "map" \/ \A i \in 1..Len(entries) : entries[i].t # "l" /\ Is("key.map", Chars(entries[i].k))
Conversion(seps, sepset) ==
    IF How = "map"
    THEN LET es == MapOfNodes(entries)
         IN Case("lm.convert", [tree |-> Tree, seps |-> seps],
                 [list |-> MapAsList(es), map |-> ViewMap(Some(es)), empty |-> Len(es) = 0])
    ELSE LET ss == Deduplicated(ItemTexts)
         IN Case("lm.convert", [tree |-> Tree, seps |-> seps],
                 [list |-> ss, map |-> ViewMap(ListAsMap(ss, sepset)), empty |-> Len(ss) = 0])
Emit ==
    /\ Documents1
    /\ Convertible => Conversion("=", {"="}) /\ Conversion(":=", {":", "="}) /\ (T => Conversion(":", {":"}))
=============================================================================
