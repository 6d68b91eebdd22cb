----------------------------- MODULE ShortTable -----------------------------
(***************************************************************************)
(* Short forms, maps of sections which may be lists of names instead, and  *)
(* fields for one item or a list of them.                                  *)
(***************************************************************************)
EXTENDS Forms, Samples, Json
CONSTANTS Tier, Focus
VARIABLES op, tree
vars == <<op, tree>>
T == Tier = "thorough"

Range1(s) == {s[i] : i \in 1..Len(s)}
Kinds2 == {"Include", "Build", "ConfigOrSecret", "EnvFile", "Ulimit"}
Scalars2(kind) == Range1(Good(ShortType(kind))) \cup Range1(BadLeaf(ShortType(kind).a)) \cup {x \in Range1(Generic) : x.t # "z" /\ ~IsMap(x)}
NamesOf == Texts(<<"db", "a.b_c-1", "0">>)
Lists1(items, n) == {Lst(s) : s \in UNION {[1..k -> items] : k \in 0..n}}
Dependencies == {Dict(<<Key("condition", Txt(w))>> \o r \o q) :
                    w \in Range1(Words("condition")), r \in {<<>>} \cup {<<Key("restart", Bool(b))>> : b \in BOOLEAN},
                    q \in {<<>>} \cup {<<Key("required", Bool(b))>> : b \in BOOLEAN}}
                \cup {Dict(<<>>), Dict(<<Key("condition", Txt("service_started")), Key("bogus", Nil)>>)}
NetworkFields == SectionOf("ServiceNetwork").fs
NetworkOptions == {Nil, Dict(<<>>), Full("ServiceNetwork", 1), Dict(<<Key("x-a", Nil)>>), Dict(<<Key("aliases", Lst(<<>>)), Key("driver_opts", Dict(<<>>))>>)}
                  \cup UNION {{Dict(<<Key(NetworkFields[i].f, Good(NetworkFields[i].ty)[j])>>) : j \in 1..Len(Good(NetworkFields[i].ty))} : i \in 1..Len(NetworkFields)}
Maps(values, n) == UNION {{Dict([i \in 1..k |-> Key(NamesOf[i].v, s[i])]) : s \in [1..k -> values]} : k \in 0..n}
EnvItems == {Txt("a.env"), Txt(""), Dict(<<Key("path", Txt("b.env"))>>), Dict(<<Key("required", Bool(TRUE)), Key("path", Txt("b.env"))>>),
             Dict(<<Key("path", Txt("b.env")), Key("required", Bool(FALSE))>>), Dict(<<Key("required", Bool(FALSE))>>), Nil, Num("1")}
Strings1 == {Txt("a"), Txt(""), Txt("b=c"), Num("5"), Nil}
Trees(o) ==
    CASE o.kind \in Kinds2 -> Scalars2(o.kind)
      [] o.kind = "DependsOn" -> Maps(Dependencies, IF T THEN 3 ELSE 2) \cup Lists1(Range1(NamesOf) \cup {Txt(""), Num("5")}, 3)
      [] o.kind = "Networks" -> Maps(NetworkOptions, 2) \cup Lists1(Range1(NamesOf) \cup {Txt("")}, 3)
      [] o.kind = "items" -> Lists1(Strings1, IF T THEN 4 ELSE 3) \cup Strings1 \cup {Dict(<<>>), Bool(TRUE)}
      [] o.kind = "envfile" -> Lists1(EnvItems, IF T THEN 4 ELSE 3) \cup EnvItems
Init == \E f \in Focus :
            /\ op = [kind |-> f, name |-> IF f = "items" THEN "forms.items" ELSE IF f = "envfile" THEN "forms.envfile" ELSE "forms.of"]
            /\ tree \in Trees(op)
Next == FALSE /\ UNCHANGED vars
In == IF op.name = "forms.of" THEN [kind |-> op.kind, tree |-> tree] ELSE [tree |-> tree]
Settled1 == \/ op.name # "forms.of"
            \/ ~Somewhere("null", IF IsMap(tree) THEN LongType(op.kind) ELSE ShortType(op.kind), tree)
\* Long for short is short again.
ThereAndBack ==
    op.name = "forms.of" =>
        LET o == EvalForms(op.kind, tree)
        IN /\ o.ok /\ o.held = "short" => ShortForm(op.kind, o.long) = o.short
           /\ o.ok /\ IsSome(o.short) => EvalForms(op.kind, o.short[1]).short = o.short
Emit == Settled1 => PrintT("CASE " \o ToJson([op |-> op.name, in |-> In, out |-> EvalForm(op.name, In)]))
=============================================================================
