------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* A user types a text, one token at a time, into a field of language `op`.*)
(* Every reachable state is one input; the specification's verdict on it   *)
(* is emitted as a case to be replayed into the implementation.            *)
(***************************************************************************)
EXTENDS Alphabets, Eval, Json

CONSTANTS Ops, Grains, Tier

VARIABLES op, grain, typed
vars == <<op, grain, typed>>

Tokens == CASE grain = "fine" -> Fine(op) [] grain = "coarse" -> Coarse(op)
            [] grain = "inner" -> Inner(op) [] OTHER -> Ascii
Depth == CASE grain = "fine" -> FineDepth(op, Tier) [] grain = "coarse" -> CoarseDepth(op, Tier)
           [] grain = "inner" -> InnerDepth(op, Tier) [] OTHER -> AsciiDepth(op)

Init == /\ op \in Ops
        /\ grain \in Grains
        /\ typed = <<>>
Type(t) == /\ Len(typed) < Depth
           /\ typed' = Append(typed, t)
           /\ UNCHANGED <<op, grain>>
Next == \E t \in Tokens : Type(t)
Spec == Init /\ [][Next]_vars

Context == CASE grain = "ascii" -> Around(op) [] grain = "inner" -> InnerAround(op) [] OTHER -> <<"", "">>
Text == Context[1] \o Join(typed) \o Context[2]
Verdict == EvalText(op, Text)

\* What an accepted text prints as is itself accepted, and denotes the same
\* value: printing and reading back loses nothing and reaches a fixed point.
PrintedTextIsAFixedPoint(v) == Faithful(op) /\ v.ok => EvalText(op, v.text) = v

\* (One invariant, so that the verdict on each state is computed once.)
Emit == Tractable(op, Text) =>
        LET v == Verdict
        IN /\ PrintedTextIsAFixedPoint(v)
           /\ PrintT("CASE " \o ToJson([op |-> op, in |-> [s |-> Text], out |-> v]))
=============================================================================
