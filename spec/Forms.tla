-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* What a section as a whole is good for: whether it says anything at all, *)
(* and whether a short form says the same.                                 *)
(***************************************************************************)
EXTENDS Schema

(***************************************************************************)
(* Whether a section, in canonical form, has no settings.  Nested sections *)
(* without settings, and lists of such, are no settings.                   *)
(***************************************************************************)
RECURSIVE Vacant(_, _)
Hollow(ty, y) ==
    CASE ty.g = "sec" -> Vacant(ty.a, y)
      [] ty.g = "list" /\ ty.s[1].g = "sec" -> \A i \in 1..Len(y.c) : Vacant(ty.s[1].a, y.c[i])
      [] OTHER -> EmptyCollection(y)
Vacant(a, c) ==
    \A i \in 1..Len(c.c) : /\ c.c[i].k \in DOMAIN SectionOf(a).by
                           /\ Hollow(SectionOf(a).by[c.c[i].k].ty, c.c[i])
EvalEmpty(a, x) ==
    LET c == Canon(IF a = "Healthcheck" THEN Own("healthcheck") ELSE Sec(a), x)
    IN IF IsNone(c) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, empty |-> Vacant(a, c[1])]

(***************************************************************************)
(* Short forms of long ones.                                               *)
(***************************************************************************)
ShortType(kind) ==
    CASE kind = "Include" -> Path [] kind = "Build" -> Lf("context") [] kind = "ConfigOrSecret" -> Ident [] kind = "EnvFile" -> Path
      [] kind = "Ulimit" -> Lf("limit.u64") [] kind \in {"DependsOn", "Networks"} -> SetOf(Ident)
LongType(kind) ==
    CASE kind = "DependsOn" -> MapOf("key.identifier", Sec("Dependency"))
      [] kind = "Networks" -> NullableMapOf("key.identifier", Sec("ServiceNetwork"))
      [] OTHER -> Sec(kind)
MainField(kind) == CASE kind \in {"Include", "EnvFile"} -> "path" [] kind = "Build" -> "context" [] kind = "ConfigOrSecret" -> "source"
PlainDependency == Node("o", "", <<Key("condition", Txt("service_started"))>>)
Keys1(c) == Lst([i \in 1..Len(c.c) |-> Txt(c.c[i].k)])
\* The short form of a canonical long one, if it has one.
ShortForm(kind, c) ==
    CASE kind = "Ulimit" ->
            IF Len(c.c) = 2 /\ Bare(Entry(c, "soft")) = Bare(Entry(c, "hard")) THEN Some(Bare(Entry(c, "soft"))) ELSE None
      [] kind = "DependsOn" -> IF \A i \in 1..Len(c.c) : Bare(c.c[i]) = PlainDependency THEN Some(Keys1(c)) ELSE None
      [] kind = "Networks" -> IF \A i \in 1..Len(c.c) : c.c[i].t = "z" \/ Vacant("ServiceNetwork", c.c[i]) THEN Some(Keys1(c)) ELSE None
      [] OTHER ->
            IF Len(c.c) # 1 \/ ~HasKey(c, MainField(kind)) THEN None
            ELSE LET m == Bare(Entry(c, MainField(kind)))
                 IN IF ~IsList(m) THEN Some(m) ELSE IF Len(m.c) = 1 THEN Some(Bare(m.c[1])) ELSE None
\* The long form that a canonical short one stands for.
LongForm(kind, c) ==
    CASE kind = "Ulimit" -> Node("o", "", <<Key("soft", c), Key("hard", c)>>)
      [] kind = "DependsOn" -> Dict(Map(LAMBDA y : Key(y.v, PlainDependency), c.c))
      [] kind = "Networks" -> Dict(Map(LAMBDA y : Key(y.v, Nil), c.c))
      [] OTHER -> Node("o", "", <<Key(MainField(kind), c)>>)
EvalForms(kind, x) ==
    LET long == IsMap(x)
        c == Canon(IF long THEN LongType(kind) ELSE ShortType(kind), x)
    IN IF IsNone(c) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, held |-> IF long THEN "long" ELSE "short", written |-> c[1],
             short |-> IF long THEN ShortForm(kind, c[1]) ELSE c,
             long |-> IF long THEN c[1] ELSE LongForm(kind, c[1])]

(***************************************************************************)
(* One item, or a list of them.                                            *)
(***************************************************************************)
EvalItems(x) ==
    LET c == Canon(ItemOrList(Str), x)
    IN IF IsNone(c) THEN [ok |-> FALSE]
       ELSE LET items == IF IsList(c[1]) THEN c[1].c ELSE <<Bare(c[1])>>
            IN [ok |-> TRUE, item |-> IF Len(items) = 1 THEN Some(Bare(items[1])) ELSE None, list |-> Lst(items), written |-> c[1]]
EvalEnvFiles(x) ==
    LET c == Canon(Or(Path, ListOf(ShortOrLong(Path, Sec("EnvFile"))), Never), x)
    IN IF IsNone(c) THEN [ok |-> FALSE]
       ELSE LET items == IF IsList(c[1]) THEN c[1].c ELSE <<Bare(c[1])>>
                one == IF Len(items) # 1 THEN None
                       ELSE IF IsText(items[1]) THEN Some(Bare(items[1])) ELSE ShortForm("EnvFile", items[1])
            IN [ok |-> TRUE, single |-> one, list |-> Lst(items), written |-> c[1]]

EvalForm(op, in) ==
    CASE op = "empty.of" -> EvalEmpty(in.section, in.tree)
      [] op = "forms.of" -> EvalForms(in.kind, in.tree)
      [] op = "forms.items" -> EvalItems(in.tree)
      [] op = "forms.envfile" -> EvalEnvFiles(in.tree)
=============================================================================
