------------------------------ MODULE Platforms ------------------------------
(* The full product of systems, architectures and variants, and strays. *)
EXTENDS Refs, Json
CONSTANTS Tier
VARIABLES case
Strays == {"", "x", "Linux", "v9", "v6 ", "arm32"}
OsParts == Systems \cup Strays
ArchParts == {None} \cup {Some(a) : a \in Arches \cup Variants \cup Strays}
VariantParts == {None} \cup {Some(v) : v \in Variants \cup {"v5", "v9", "", "arm", "8"}}
Slash(o) == IF IsNone(o) THEN "" ELSE "/" \o o[1]
Texts == {os \o Slash(a) \o Slash(v) : os \in OsParts, a \in ArchParts, v \in VariantParts}
Init == case \in Texts
Next == FALSE /\ UNCHANGED case
\* Whatever is accepted is one of the supported combinations, printed as it was read.
Supported == LET p == EvalPlatform(case)
             IN p.ok => /\ p.os \in Systems /\ p.text = case
                        /\ (IsSome(p.arch) => \E i \in 1..Len(p.systems) : p.systems[i] = p.os)
Emit == PrintT("CASE " \o ToJson([op |-> "platform.parse", in |-> [s |-> case], out |-> EvalPlatform(case)]))
=============================================================================
