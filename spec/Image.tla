------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* Container image references:  {name}[:{tag} | @{digest}]  where the name *)
(* is a '/'-separated path whose first component is a registry (optionally *)
(* with a ':port') when it contains a dot.                                 *)
(*                                                                         *)
(* The grammar below is declarative: it says which texts are references    *)
(* and what their components are.  It does not follow the implementation's *)
(* scanning order.                                                         *)
(***************************************************************************)
EXTENDS Big

(* A path component: lower-case alphanumerics, joined by single separators *)
(* where a separator is ".", "_", "__" or any number of dashes.            *)
SepAt(cs, i, j) ==      \* cs[i..j] is one legal separator
    LET run == SubSeq(cs, i, j)
    IN \/ run = <<".">> \/ run = <<"_">> \/ run = <<"_","_">>
       \/ All(run, {"-"})
IsComponent(cs) ==
    /\ Len(cs) > 0
    /\ All(cs, LowerAlnum \cup {".", "_", "-"})
    /\ cs[1] \in LowerAlnum
    /\ cs[Len(cs)] \in LowerAlnum
    \* every maximal run of non-alphanumerics is one legal separator
    /\ \A i \in 2..Len(cs) : \A j \in i..(Len(cs) - 1) :
          ( /\ cs[i - 1] \in LowerAlnum
            /\ cs[j + 1] \in LowerAlnum
            /\ \A k \in i..j : cs[k] \notin LowerAlnum ) => SepAt(cs, i, j)

\* None, or Some(length of the registry) when the first component is one.
RegistryLen(cs) ==
    LET first == Split(cs, "/")[1]
    IN IF Has(first, ".") THEN Some(Len(first)) ELSE None

IsPort(cs) == IsSome(ParseU(cs, U16Max))
IsRegistry(cs) ==
    LET c == First(cs, ":")
    IN IF c = 0 THEN IsComponent(cs)
       ELSE IsComponent(Before(cs, c)) /\ IsPort(After(cs, c))

IsName(cs) ==
    LET parts == Split(cs, "/")
    IN /\ IF Has(parts[1], ".") THEN IsRegistry(parts[1]) ELSE IsComponent(parts[1])
       /\ \A i \in 2..Len(parts) : IsComponent(parts[i])

IsTag(cs) ==
    /\ Len(cs) \in 1..128
    /\ All(cs, Alnum \cup {".", "_", "-"})

IsDigest(cs) ==
    LET c == First(cs, ":")
        alg == Before(cs, c)
        enc == After(cs, c)
        Sep == {"+", ".", "_", "-"}
    IN /\ c > 0
       /\ Len(alg) > 0 /\ All(alg, LowerAlnum \cup Sep)
       /\ alg[1] \in LowerAlnum /\ alg[Len(alg)] \in LowerAlnum
       /\ \A i \in 1..(Len(alg) - 1) : ~(alg[i] \in Sep /\ alg[i + 1] \in Sep)
       /\ Len(enc) > 0 /\ All(enc, Alnum \cup {"=", "_", "-"})

(* A reference is the record [name, tag, digest] of character sequences;   *)
(* tag and digest are optional and never both present.                     *)
Ref(n, t, d) == [name |-> n, tag |-> t, digest |-> d]

\* A trailing ":x" is a tag unless x contains "/" (then it is a registry port).
TagColon(cs) ==
    LET c == LastPos(cs, ":")
    IN IF c > 0 /\ ~Has(After(cs, c), "/") THEN c ELSE 0

\* None or Some(reference).
ParseImage(cs) ==
    LET at == First(cs, "@")
        rest == IF at = 0 THEN cs ELSE Before(cs, at)
        dig == IF at = 0 THEN None ELSE Some(After(cs, at))
        colon == TagColon(rest)
        name == IF colon = 0 THEN rest ELSE Before(rest, colon)
        tag == IF colon = 0 THEN None ELSE Some(After(rest, colon))
    IN IF /\ IsName(name)
          /\ (IsSome(tag) => IsTag(tag[1]))
          /\ (IsSome(dig) => IsDigest(dig[1]))
          /\ ~(IsSome(tag) /\ IsSome(dig))
       THEN Some(Ref(name, tag, dig)) ELSE None

ShowImage(r) ==
    r.name \o (IF IsSome(r.tag) THEN <<":">> \o r.tag[1] ELSE <<>>)
           \o (IF IsSome(r.digest) THEN <<"@">> \o r.digest[1] ELSE <<>>)

OptText(o) == IF IsNone(o) THEN None ELSE Some(Join(o[1]))
RegistryOf(n) == LET l == RegistryLen(n) IN IF IsNone(l) THEN None ELSE Some(SubSeq(n, 1, l[1]))
\* The name without its registry; empty when the name is only a registry.
PathOf(n) == LET l == RegistryLen(n) IN IF IsNone(l) THEN n ELSE DropFirst(n, l[1] + 1)

\* What an observer sees of a reference.
ViewImage(r) ==
    [ok |-> TRUE,
     text |-> Join(ShowImage(r)),
     name |-> Join(r.name),
     registry |-> OptText(RegistryOf(r.name)),
     tag |-> OptText(r.tag),
     digest |-> OptText(r.digest)]

EvalImageParse(s) ==
    LET r == ParseImage(Chars(s))
    IN IF IsNone(r) THEN [ok |-> FALSE] ELSE ViewImage(r[1])
EvalNameParse(s) ==
    LET cs == Chars(s)
    IN IF IsName(cs) THEN [ok |-> TRUE, text |-> s, registry |-> OptText(RegistryOf(cs))]
       ELSE [ok |-> FALSE]
EvalTagParse(s) == IF IsTag(Chars(s)) THEN [ok |-> TRUE, text |-> s] ELSE [ok |-> FALSE]
EvalDigestParse(s) == IF IsDigest(Chars(s)) THEN [ok |-> TRUE, text |-> s] ELSE [ok |-> FALSE]

(***************************************************************************)
(* Edits.  Each edit replaces one component of the reference and leaves    *)
(* the others alone; a tag and a digest displace each other.               *)
(***************************************************************************)
SetTag(r, t) == Ref(r.name, Some(t), None)
SetDigest(r, d) == Ref(r.name, None, Some(d))
ClearTagOrDigest(r) == Ref(r.name, None, None)
SetName(r, n) == Ref(n, r.tag, r.digest)
\* Removing the registry of a name that consists only of one would leave no
\* name at all, so it leaves the reference unchanged.
ClearRegistry(r) ==
    IF IsNone(RegistryOf(r.name)) \/ Len(PathOf(r.name)) = 0 THEN r
    ELSE Ref(PathOf(r.name), r.tag, r.digest)
SetRegistry(r, g) ==
    LET p == PathOf(r.name)
    IN Ref(IF Len(p) = 0 THEN g ELSE g \o <<"/">> \o p, r.tag, r.digest)

\* An edit is [e |-> kind, v |-> optional text].
ApplyEdit(r, e) ==
    CASE e.e = "registry" ->
            IF IsNone(e.v) THEN ClearRegistry(r) ELSE SetRegistry(r, Chars(e.v[1]))
      [] e.e = "name" -> SetName(r, Chars(e.v[1]))
      [] e.e = "tag" -> IF IsNone(e.v) THEN ClearTagOrDigest(r) ELSE SetTag(r, Chars(e.v[1]))
      [] e.e = "digest" -> IF IsNone(e.v) THEN ClearTagOrDigest(r) ELSE SetDigest(r, Chars(e.v[1]))
      [] e.e = "tod-tag" -> SetTag(r, Chars(e.v[1]))
      [] e.e = "tod-digest" -> SetDigest(r, Chars(e.v[1]))
      [] e.e = "tod-none" -> ClearTagOrDigest(r)
      \* take the reference apart and put it together again
      [] e.e = "reassemble" -> r

\* Views after each prefix of a history, starting with the view of the parse.
RECURSIVE ViewsFrom(_, _)
ViewsFrom(r, es) ==
    IF Len(es) = 0 THEN <<ViewImage(r)>>
    ELSE <<ViewImage(r)>> \o ViewsFrom(ApplyEdit(r, es[1]), Tail(es))
EvalImageEdits(s, es) ==
    LET r == ParseImage(Chars(s))
    IN [views |-> IF IsNone(r) THEN <<>> ELSE ViewsFrom(r[1], es)]
=============================================================================
