------------------------------- MODULE Partial -------------------------------
(***************************************************************************)
(* A section is given some of its settings, one after the other: real ones *)
(* and hollow ones (empty, false, null, or nested and saying nothing).     *)
(***************************************************************************)
EXTENDS Forms, Samples, Json
CONSTANTS Tier, Focus, Op
VARIABLES section, entries, room
vars == <<section, entries, room>>
T == Tier = "thorough"

FirstFew(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)
\* Ways of saying nothing, at any depth.
RECURSIVE Hollows(_)
Blanks(a) ==
    <<Dict(<<>>)>> \o FoldLeft(LAMBDA acc, f : acc \o Map(LAMBDA h : Dict(<<Key(f.f, h)>>), Hollows(f.ty)), <<>>, SectionOf(a).fs)
Hollows(ty) ==
    CASE ty.g = "sec" -> Blanks(ty.a)
      [] ty.g = "list" /\ ty.s[1].g = "sec" -> LET b == Blanks(ty.s[1].a) IN Map(LAMBDA x : Lst(<<x>>), b) \o <<Lst(<<b[1], b[Len(b)]>>)>>
      [] ty.g \in {"list", "set"} -> <<Lst(<<>>)>>
      [] ty.g \in {"map", "nmap"} -> <<Dict(<<>>)>>
      [] ty.g = "or" -> Hollows(ty.s[2]) \o Hollows(ty.s[3])
      [] ty = BoolT -> <<Bool(FALSE)>>
      [] OTHER -> <<>>
\* One deep setting among nothing.
RECURSIVE Deep(_)
Single(a) ==
    FoldLeft(LAMBDA acc, f : acc \o Map(LAMBDA d : Dict(<<Key(f.f, d)>>), Deep(f.ty)), <<>>, SectionOf(a).fs)
    \o IF SectionOf(a).ext THEN <<Dict(<<Key("x-d", Nil)>>)>> ELSE <<>>
Deep(ty) ==
    CASE ty.g = "sec" -> Single(ty.a)
      [] ty.g = "list" /\ ty.s[1].g = "sec" -> Map(LAMBDA x : Lst(<<Dict(<<>>), x>>), Single(ty.s[1].a))
      [] OTHER -> FirstFew(Good(ty), 1)
Nested(ty) == ty.g = "sec" \/ (ty.g = "list" /\ ty.s[1].g = "sec")
Nulls(f) == IF f.m = "opt" THEN <<Nil>> ELSE <<>>
Pool == [a \in Focus |-> [f \in DOMAIN SectionOf(a).by |->
            LET fd == SectionOf(a).by[f]
            IN FirstFew(Good(fd.ty), 8) \o Hollows(fd.ty) \o Nulls(fd) \o (IF Nested(fd.ty) THEN Deep(fd.ty) ELSE <<>>)]]
Few(a, f) == FirstFew(Good(SectionOf(a).by[f].ty), 2) \o Hollows(SectionOf(a).by[f].ty)
Names(a) == DOMAIN SectionOf(a).by

Put(f, v) == SelectSeq(entries, LAMBDA y : y.k # f) \o <<Key(f, v)>>
Init == \E a \in Focus :
            /\ section = a
            /\ \/ entries = <<>> /\ room = (IF T THEN 3 ELSE 2)
               \/ entries = Minimal(a).c /\ Len(Minimal(a).c) > 0 /\ room = 2
               \/ \E n \in 1..2 : entries = Full(a, n).c /\ room = 1
Give == \E f \in Names(section) :
            LET late == entries # <<>> /\ entries # Minimal(section).c
                pool == IF late THEN Few(section, f) ELSE Pool[section][f]
            IN \E i \in 1..Len(pool) : entries' = Put(f, pool[i])
Extend == SectionOf(section).ext /\ \E k \in {"x-e", "x-"} : \E v \in {Nil, Num("1"), Dict(<<>>)} : entries' = Put(k, v)
Take == \E i \in 1..Len(entries) : entries' = SubSeq(entries, 1, i - 1) \o SubSeq(entries, i + 1, Len(entries))
Next == room > 0 /\ room' = room - 1 /\ UNCHANGED section /\ (Give \/ Extend \/ Take)

In == IF Op = "empty.of" THEN [section |-> section, tree |-> Dict(entries)] ELSE [kind |-> section, tree |-> Dict(entries)]
Out == EvalForm(Op, In)
\* A vacant section can only be written as one, and made short, says the same.
Consistent ==
    Op = "forms.of" =>
        LET o == Out
        IN o.ok /\ IsSome(o.short) => LET s == EvalForms(section, o.short[1]) IN s.ok /\ s.short = o.short /\ ShortForm(section, s.long) = o.short
Sensible == ~Somewhere("null", Sec(section), Dict(entries)) /\ ~Somewhere("big", Sec(section), Dict(entries))
Emit == Sensible => PrintT("CASE " \o ToJson([op |-> Op, in |-> In, out |-> Out]))
=============================================================================
