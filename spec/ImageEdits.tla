----------------------------- MODULE ImageEdits -----------------------------
(***************************************************************************)
(* An image reference in a user's hands: read once, then edited any number *)
(* of times.  Every history of MaxEdits edits is a behaviour to replay.    *)
(***************************************************************************)
EXTENDS Image, Json

CONSTANTS Tier

VARIABLES start, ref, hist
vars == <<start, ref, hist>>

Names == {"a", "a/bb", "quay.io/a", "quay.io:443/a/b-c", "q.io"}
Starts == {"a", "lib/busybox:1", "quay.io/a@sha256:0f", "quay.io:80/a/b:v1.0", "q.io",
           "q.io:7", "a.b/c@x+y:A=", "very-long-registry.example.com:5000/one/two/three:TAG"}
Tags == {"t", "long-tag_1.0"}
Digests == {"sha256:ab", "x:Z"}
Registries == {"r.io", "registry.example.com:5000"}

E(k, v) == [e |-> k, v |-> v]
Edits ==
    {E("registry", None), E("tag", None), E("digest", None), E("tod-none", None), E("reassemble", None)}
    \cup {E("registry", Some(g)) : g \in Registries}
    \cup {E("name", Some(n)) : n \in Names}
    \cup {E("tag", Some(t)) : t \in Tags} \cup {E("tod-tag", Some(t)) : t \in {"u2"}}
    \cup {E("digest", Some(d)) : d \in Digests} \cup {E("tod-digest", Some(d)) : d \in {"sha512:00"}}

MaxEdits == IF Tier = "thorough" THEN 4 ELSE 3

\* The text of the reference denotes the reference.
Unambiguous(r) == ParseImage(ShowImage(r)) = Some(r)

Init == /\ start \in Starts
        /\ ref = ParseImage(Chars(start))[1]
        /\ hist = <<>>
\* Edits after which no text denotes the result (a registry with a port and
\* nothing else; a first component that was not a registry and now reads like
\* one) are outside this machine; see ImageAmbiguous.
Edit(e) == /\ Len(hist) < MaxEdits
           /\ Unambiguous(ApplyEdit(ref, e))
           /\ (e = E("registry", None) => IsNone(RegistryOf(PathOf(ref.name))))
           /\ ref' = ApplyEdit(ref, e)
           /\ hist' = Append(hist, e)
           /\ UNCHANGED start
Next == \E e \in Edits : Edit(e)
Spec == Init /\ [][Next]_vars

WellFormed == /\ IsName(ref.name)
              /\ (IsSome(ref.tag) => IsTag(ref.tag[1]))
              /\ (IsSome(ref.digest) => IsDigest(ref.digest[1]))
NeverBoth == ~(IsSome(ref.tag) /\ IsSome(ref.digest))
TextDenotesReference == Unambiguous(ref)

\* Each edit changes its own component only.
Frame == [][LET e == hist'[Len(hist')].e
            IN /\ (e \in {"tag", "digest", "tod-tag", "tod-digest", "tod-none", "reassemble"}
                      => ref'.name = ref.name)
               /\ (e \in {"name", "registry", "reassemble"}
                      => ref'.tag = ref.tag /\ ref'.digest = ref.digest)
               /\ (e = "registry" => PathOf(ref'.name) = PathOf(ref.name)
                                     \/ IsNone(RegistryOf(ref'.name)))]_vars

Emit == (Len(hist) = MaxEdits) =>
    PrintT("CASE " \o ToJson([op |-> "image.edits", in |-> [s |-> start, es |-> hist],
                              out |-> EvalImageEdits(start, hist)]))
=============================================================================
