------------------------------- MODULE Compose -------------------------------
(***************************************************************************)
(* A user writes a document: services come to use resources, and the top   *)
(* level comes to define them, one at a time and in any order.             *)
(***************************************************************************)
EXTENDS Validation, Json
CONSTANTS Tier, Focus
VARIABLES doc, steps
vars == <<doc, steps>>
T == Tier = "thorough"
AllKinds == {"network", "volume", "config", "secret"}
ResourceKinds == IF Focus = "all" THEN AllKinds ELSE {Focus}
\* (Not in alphabetical order.)
ServiceNames == <<"web", "db", "app">>
Names == IF Focus = "all" THEN {"x"} ELSE {"b", "a"}
MaxSteps(n) == (IF Focus = "volume" THEN 3 ELSE 4) + (IF n = 3 /\ Focus # "all" THEN 0 ELSE 1) + (IF T THEN 1 ELSE 0)
               - (IF Focus = "volume" /\ n = 1 THEN 1 ELSE 0)
FormsOf(kind) == IF Focus # "all" THEN UseForms(kind) ELSE IF kind = "network" THEN {"list"} ELSE {"short"}
\* The less usual spellings: only so many per document, all of the same name.
Unusual(form) == form \in {"bind", "bind-long", "anonymous", "anonymous-long", "cluster", "build", "build-long", "short-ro", "short-z",
                           "map-set", "long-set", "long-ext", "external", "set"}
NamesFor(form) == IF Unusual(form) THEN Names \ {"b"} ELSE Names
UnusualIn(d) ==
    Len(SelectSeq(d.defs, LAMBDA x : Unusual(x.form)))
    + FoldLeft(LAMBDA n, sv : n + Len(SelectSeq(sv.uses, LAMBDA x : Unusual(x.form))), 0, d.services)
Budget == IF Focus = "all" THEN 0 ELSE IF T THEN 2 ELSE 1
Init == \E n \in 1..3 : doc = [services |-> [i \in 1..n |-> [name |-> ServiceNames[i], uses |-> <<>>]], defs |-> <<>>]
                        /\ steps = 0
\* A mapping or set has each key once; networks of a service are all in one form.
Fits(s, u) ==
    /\ \A i \in 1..Len(s.uses) : s.uses[i] # u
    /\ u.kind = "network" => \A i \in 1..Len(s.uses) :
            s.uses[i].kind = "network" => (s.uses[i].name # u.name /\ (s.uses[i].form = "list") = (u.form = "list"))
Use(i, u) == /\ Fits(doc.services[i], u)
             /\ Unusual(u.form) => UnusualIn(doc) < Budget
             /\ doc' = [doc EXCEPT !.services[i].uses = Append(@, u)]
Define(d) == /\ d.name \notin Defined(doc, d.kind)
             /\ Unusual(d.form) => UnusualIn(doc) < Budget
             /\ doc' = [doc EXCEPT !.defs = Append(@, d)]
More == steps < MaxSteps(Len(doc.services)) /\ steps' = steps + 1
Next == /\ More
        /\ \/ \E i \in 1..Len(doc.services), kind \in ResourceKinds : \E form \in FormsOf(kind) : \E n \in NamesFor(form) :
                Use(i, [kind |-> kind, form |-> form, name |-> n])
           \/ \E kind \in ResourceKinds, n \in Names : \E form \in (IF n = "b" THEN {"plain"} ELSE DefForms) :
                Define([kind |-> kind, form |-> form, name |-> n])
\* Everything is in order exactly when every part is.
AllIsAll ==
    LET v == EvalValidate(doc)
    IN (ValidateAll(doc) = {None}) <=>
            (v.networks = None /\ v.configs = None /\ v.secrets = None /\ ValidateVolumes(doc) = {None})
\* Definitions never hurt, uses never help, and one service alone shares no volume.
Monotone == [][/\ (doc'.services = doc.services /\ ValidateAll(doc) = {None}) => ValidateAll(doc') = {None}
               /\ (doc'.defs = doc.defs /\ ValidateAll(doc) # {None}) => ValidateAll(doc') # {None}]_vars
Alone == Len(doc.services) = 1 => ValidateVolumes(doc) = {None}
Emit == PrintT("CASE " \o ToJson([op |-> "compose.validate", in |-> doc, out |-> EvalValidate(doc)]))
=============================================================================
