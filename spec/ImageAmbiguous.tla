--------------------------- MODULE ImageAmbiguous ---------------------------
(***************************************************************************)
(* Edit histories that end in a reference which no text denotes: the text  *)
(* of the edited image reads back as a different one.  The property        *)
(* demands self-consistency here too; that the code does not deliver it is *)
(* recorded in known_findings.txt, history by history.                     *)
(***************************************************************************)
EXTENDS Image, Json

CONSTANTS Tier
VARIABLES case
E(k, v) == [e |-> k, v |-> v]
Cases == {
    \* a registry with a port, and nothing else: ":443" reads back as a tag
    [s |-> "quay.io:443:latest", es |-> <<E("tag", None)>>],
    [s |-> "a@sha256:0f", es |-> <<E("name", Some("quay.io:443"))>>],
    [s |-> "a:t", es |-> <<E("tag", None), E("name", Some("quay.io:443"))>>],
    \* without its registry, the next component reads back as one
    [s |-> "quay.io/foo.bar/x", es |-> <<E("registry", None)>>],
    \* neighbours which are unambiguous
    [s |-> "quay.io:443:latest", es |-> <<E("tag", Some("x"))>>],
    [s |-> "quay.io:443/a:latest", es |-> <<E("tag", None)>>],
    [s |-> "quay.io:443:latest", es |-> <<E("registry", None)>>],
    [s |-> "quay.io/foo-bar/x.y", es |-> <<E("registry", None)>>] }
Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Emit == PrintT("CASE " \o ToJson([op |-> "image.selfconsistent", in |-> case, out |-> [consistent |-> TRUE]]))
=============================================================================
