------------------------------- MODULE Volumes -------------------------------
(***************************************************************************)
(* Volumes: paths that are absolute or anchored at . or .., edits of them, *)
(* the short syntax, and the long syntax with everything it can say.       *)
(***************************************************************************)
EXTENDS Refs

(******************************** paths *************************************)
FirstPart(cs) == IF Has(cs, "/") THEN Before(cs, First(cs, "/")) ELSE cs
IsHostPath(cs) == IsAbsolute(cs) \/ FirstPart(cs) \in {<<".">>, <<".", ".">>}
EvalPath(op, s) ==
    LET cs == Chars(s)
        ok == IF op = "abspath.parse" THEN IsAbsolute(cs) ELSE IsHostPath(cs)
    IN IF ok THEN [ok |-> TRUE, text |-> s] ELSE Reject

\* Adding to a path: an absolute addition replaces it.
PushPath(cs, p) ==
    IF IsAbsolute(p) THEN p
    ELSE IF Len(cs) > 0 /\ cs[Len(cs)] # "/" THEN cs \o <<"/">> \o p ELSE cs \o p
\* Where the first component that can be taken away begins: the root and a leading . stay.
BodyStart(cs) == IF IsAbsolute(cs) \/ FirstPart(cs) = <<".">> THEN 1 ELSE 0
\* Trailing separators and . components mean nothing.
RECURSIVE TrimPath(_)
TrimPath(cs) ==
    IF Len(cs) <= BodyStart(cs) THEN cs
    ELSE IF EndsWith(cs, <<"/">>) THEN TrimPath(DropLast(cs, 1))
    ELSE IF EndsWith(cs, <<"/", ".">>) /\ Len(cs) > BodyStart(cs) + 1 THEN TrimPath(DropLast(cs, 1))
    ELSE IF cs = <<"/", ".">> THEN <<"/">>
    ELSE cs
\* The path without its last component; nothing when there is none to take away.
ParentPath(cs) ==
    LET t == TrimPath(cs)
        i == LastPos(t, "/")
    IN IF t = <<"/">> \/ t = <<>> THEN None
       ELSE IF i = 0 THEN Some(<<>>)
       ELSE Some(TrimPath(SubSeq(t, 1, i)))
PopPath(kind, cs) ==
    LET p == ParentPath(cs)
    IN IF IsNone(p) THEN None
       ELSE IF kind = "hostpath" /\ p[1] = <<>> THEN None ELSE p
ApplyPathEdit(kind, cs, e) ==
    IF e.e = "push" THEN Some(PushPath(cs, Chars(e.v))) ELSE PopPath(kind, cs)
PathOk(kind, cs) == IF kind = "hostpath" THEN IsHostPath(cs) ELSE IsAbsolute(cs)
RECURSIVE RunPathEdits(_, _, _)
RunPathEdits(kind, cs, es) ==
    IF Len(es) = 0 THEN <<>>
    ELSE LET n == ApplyPathEdit(kind, cs, es[1])
             after == IF IsNone(n) THEN cs ELSE n[1]
         IN <<[done |-> IsSome(n), text |-> Join(after)]>> \o RunPathEdits(kind, after, Tail(es))
EvalPathEdits(kind, s, es) == [views |-> RunPathEdits(kind, Chars(s), es)]

(***************************** short syntax *********************************)
\* A source is a path exactly when it looks like one.
ParseSource(cs) ==
    IF StartsWith(cs, <<".">>) \/ IsAbsolute(cs)
    THEN IF IsHostPath(cs) THEN Some([kind |-> "path", value |-> Join(cs)]) ELSE None
    ELSE IF IsIdentifier(cs) THEN Some([kind |-> "volume", value |-> Join(cs)]) ELSE None
EvalSource(s) ==
    LET x == ParseSource(Chars(s))
    IN IF IsNone(x) THEN Reject ELSE [ok |-> TRUE, text |-> s, kind |-> x[1].kind]
\* Options: each at most once, and at most one of each pair of opposites.
VolumeOption == {<<"r", "w">>, <<"r", "o">>, <<"z">>, <<"Z">>}
OptionsOk(p) ==
    /\ \A i \in 1..Len(p) : p[i] \in VolumeOption
    /\ \A i, j \in 1..Len(p) : i # j => (Len(p[i]) = 2) # (Len(p[j]) = 2)
ParseShortVolume(cs) ==
    LET p == SplitN(cs, ":", 3)
        target == IF Len(p) = 1 THEN p[1] ELSE p[2]
        source == IF Len(p) = 1 THEN None ELSE ParseSource(p[1])
        opts == IF Len(p) = 3 THEN Split(p[3], ",") ELSE <<>>
        has(o) == \E i \in 1..Len(opts) : opts[i] = o
    IN IF ~IsAbsolute(target) \/ (Len(p) > 1 /\ IsNone(source)) \/ ~OptionsOk(opts) THEN None
       ELSE Some([container |-> Join(target), source |-> source, read_only |-> has(<<"r", "o">>),
                  selinux |-> IF has(<<"z">>) THEN Some("z") ELSE IF has(<<"Z">>) THEN Some("Z") ELSE None])
ShowShortVolume(v) ==
    LET opts == (IF v.read_only THEN <<"ro">> ELSE <<>>) \o v.selinux
    IN IF IsNone(v.source) THEN v.container
       ELSE v.source[1].value \o ":" \o v.container \o (IF Len(opts) = 0 THEN "" ELSE ":" \o JoinWith(opts, ","))
EvalShortVolume(s) ==
    LET v == ParseShortVolume(Chars(s))
    IN IF IsNone(v) THEN Reject
       ELSE [ok |-> TRUE, text |-> ShowShortVolume(v[1]), container |-> v[1].container, source |-> v[1].source,
             read_only |-> v[1].read_only, selinux |-> v[1].selinux]

(****************************** long syntax *********************************)
NoOptions == [nocopy |-> FALSE, subpath |-> None, propagation |-> None, create |-> FALSE, selinux |-> None,
              size |-> None, mode |-> None, ext |-> None]
Mount(type, source, target, ro, consistency, ext, opts) ==
    [type |-> type, source |-> source, target |-> target, read_only |-> ro, consistency |-> consistency, ext |-> ext,
     opts |-> opts]
Lengthen(v) ==
    IF IsNone(v.source) THEN Mount("volume", None, v.container, FALSE, None, None, None)
    ELSE IF v.source[1].kind = "path"
    THEN Mount("bind", Some(v.source[1].value), v.container, v.read_only, None, None,
               Some([NoOptions EXCEPT !.create = TRUE, !.selinux = v.selinux]))
    ELSE Mount("volume", Some(v.source[1].value), v.container, v.read_only, None, None, None)
EvalVolumeExpand(s) ==
    LET v == ParseShortVolume(Chars(s))
    IN IF IsNone(v) THEN Reject
       ELSE [ok |-> TRUE, text |-> ShowShortVolume(v[1]), long |-> Lengthen(v[1])]
NoColon(s) == ~Has(Chars(s), ":")
\* What the short syntax has no words for.
Shortenable(m) ==
    /\ m.type \in {"volume", "bind"}
    /\ IsNone(m.consistency) /\ IsNone(m.ext) /\ NoColon(m.target)
    /\ m.type = "volume" => (m.opts \in {None, Some(NoOptions)} /\ (IsSome(m.source) \/ ~m.read_only))
    /\ m.type = "bind" =>
          /\ NoColon(m.source[1])
          /\ (IsSome(m.opts) => [m.opts[1] EXCEPT !.selinux = None] = [NoOptions EXCEPT !.create = TRUE])
Shorten(m) ==
    [container |-> m.target, read_only |-> m.read_only,
     source |-> IF IsNone(m.source) THEN None
                ELSE Some([kind |-> IF m.type = "bind" THEN "path" ELSE "volume", value |-> m.source[1]]),
     selinux |-> IF m.type = "bind" /\ IsSome(m.opts) THEN m.opts[1].selinux ELSE None]
\* The same mount with the options a short text implies spelled out.
SpelledOut(m) ==
    [m EXCEPT !.opts = IF m.type = "bind" THEN (IF IsNone(m.opts) THEN Some([NoOptions EXCEPT !.create = TRUE]) ELSE m.opts)
                       ELSE None]
EvalVolumeShorten(m) ==
    IF Shortenable(m) THEN [ok |-> TRUE, text |-> ShowShortVolume(Shorten(m)), again |-> Lengthen(Shorten(m))] ELSE Reject

VolumeOps == {"abspath.parse", "hostpath.parse", "source.parse", "volume.parse", "volume.expand"}
EvalVolume(op, s) ==
    CASE op \in {"abspath.parse", "hostpath.parse"} -> EvalPath(op, s)
      [] op = "source.parse" -> EvalSource(s)
      [] op = "volume.parse" -> EvalShortVolume(s)
      [] op = "volume.expand" -> EvalVolumeExpand(s)
=============================================================================
