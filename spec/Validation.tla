----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Resources that services use and the top level defines.                  *)
(*                                                                         *)
(* A document is a sequence of services, each with what it uses, and a     *)
(* sequence of definitions:                                                *)
(*   service     [name, uses]                                              *)
(*   use         [kind, form, name]   kind: network, volume, config, secret*)
(*   definition  [kind, form, name]                                        *)
(***************************************************************************)
EXTENDS Str

\* How each kind of resource can be used.  Bind mounts and anonymous volumes, a build's own
\* secrets, and a network mode use no top-level resource.
UseForms(kind) ==
    CASE kind = "network" -> {"list", "map", "map-set"}
      [] kind = "volume" -> {"short", "short-ro", "short-z", "long", "long-set", "long-ext", "bind", "bind-long", "cluster", "anonymous",
                             "anonymous-long"}
      [] kind = "config" -> {"short", "long", "long-set"}
      [] kind = "secret" -> {"short", "long", "long-set", "build", "build-long"}
\* How they can be defined; any of these is a definition.
DefForms == {"plain", "external", "set"}
IsReference(u) ==
    CASE u.kind = "volume" -> u.form \in {"short", "short-ro", "short-z", "long", "long-set", "long-ext"}
      [] u.kind = "secret" -> u.form \in {"short", "long", "long-set"}
      [] OTHER -> TRUE

Defined(doc, kind) == {doc.defs[i].name : i \in {j \in 1..Len(doc.defs) : doc.defs[j].kind = kind}}
\* The names of a kind that a service uses, in order.
Uses(service, kind) == Map(LAMBDA u : u.name, SelectSeq(service.uses, LAMBDA u : u.kind = kind /\ IsReference(u)))
Unresolved(doc, service, kind) == SelectSeq(Uses(service, kind), LAMBDA n : n \notin Defined(doc, kind))

\* The first service that uses something undefined, and the first such thing it uses.
FirstUnresolved(doc, kind) ==
    LET bad == SelectSeq(doc.services, LAMBDA s : Len(Unresolved(doc, s, kind)) > 0)
    IN IF Len(bad) = 0 THEN None ELSE Some(<<bad[1].name, Unresolved(doc, bad[1], kind)[1]>>)

UsersOf(doc, volume) == {i \in 1..Len(doc.services) : \E k \in 1..Len(Uses(doc.services[i], "volume")) :
                                                          Uses(doc.services[i], "volume")[k] = volume}
VolumesUsed(doc) == UNION {{Uses(doc.services[i], "volume")[k] : k \in 1..Len(Uses(doc.services[i], "volume"))} :
                              i \in 1..Len(doc.services)}
SharedUndefined(doc) == {v \in VolumesUsed(doc) : Cardinality(UsersOf(doc, v)) >= 2 /\ v \notin Defined(doc, "volume")}

\* Which of several offending volumes is named is left open.
ValidateVolumes(doc) ==
    LET bad == SharedUndefined(doc) IN IF bad = {} THEN {None} ELSE {Some(<<"", v>>) : v \in bad}
Report(kind, finding) == IF IsNone(finding) THEN None ELSE Some(<<kind>> \o finding[1])
ValidateAll(doc) ==
    LET n == FirstUnresolved(doc, "network")
        c == FirstUnresolved(doc, "config")
        s == FirstUnresolved(doc, "secret")
    IN IF IsSome(n) THEN {Report("network", n)}
       ELSE IF ValidateVolumes(doc) # {None} THEN {Report("volume", v) : v \in ValidateVolumes(doc)}
       ELSE IF IsSome(c) THEN {Report("config", c)}
       ELSE {Report("secret", s)}

EvalValidate(doc) ==
    [networks |-> FirstUnresolved(doc, "network"), configs |-> FirstUnresolved(doc, "config"),
     secrets |-> FirstUnresolved(doc, "secret"), volumes |-> [oneof |-> SetToSeq(ValidateVolumes(doc))],
     all |-> [oneof |-> SetToSeq(ValidateAll(doc))]]
ConformsValidate(out, doc) ==
    /\ out.networks = FirstUnresolved(doc, "network")
    /\ out.configs = FirstUnresolved(doc, "config")
    /\ out.secrets = FirstUnresolved(doc, "secret")
    /\ out.volumes \in ValidateVolumes(doc)
    /\ out.all \in ValidateAll(doc)
=============================================================================
