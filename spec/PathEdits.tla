------------------------------ MODULE PathEdits ------------------------------
(* An absolute or a host path in a user's hands. *)
EXTENDS Volumes, Json
CONSTANTS Tier
VARIABLES kind, start, path, hist
vars == <<kind, start, path, hist>>
T == Tier = "thorough"
Starts(k) == {"/", "/a", "/a/b/c", "/a/", "//a//b", "/a/./b/.", "/..", "/a/.."}
             \cup IF k = "abspath" THEN {} ELSE {".", "..", "./", "./a", "./a/b", "../..", "../a/", "./.", "./..", "././a", ".//a/."}
Pushed == {"", "b", ".", "..", "/r", "/", "c/d", "e/"} \cup IF T THEN {"./f", "//", "g//h", "..//", ".i"} ELSE {}
Edits == {[e |-> "pop", v |-> ""]} \cup {[e |-> "push", v |-> p] : p \in Pushed}
MaxEdits == IF T THEN 4 ELSE 3
Init == \E k \in {"abspath", "hostpath"} : \E s \in Starts(k) :
            kind = k /\ start = s /\ path = Chars(s) /\ hist = <<>>
Edit(e) == /\ Len(hist) < MaxEdits
           /\ LET n == ApplyPathEdit(kind, path, e) IN path' = IF IsNone(n) THEN path ELSE n[1]
           /\ hist' = Append(hist, e) /\ UNCHANGED <<kind, start>>
Next == \E e \in Edits : Edit(e)
\* The path stays what it is.
StaysWhatItIs == PathOk(kind, path)
\* Going one step back after a plain step forward leads to where one was.
BackAgain == [][LET e == hist'[Len(hist')]
              IN e \in {[e |-> "push", v |-> "b"], [e |-> "push", v |-> ".."]} =>
                    LET back == PopPath(kind, path') IN IsSome(back) /\ back[1] = TrimPath(path)]_vars
Emit == (Len(hist) = MaxEdits) =>
    PrintT("CASE " \o ToJson([op |-> "path.edits", in |-> [kind |-> kind, s |-> start, es |-> hist],
                              out |-> EvalPathEdits(kind, start, hist)]))
=============================================================================
