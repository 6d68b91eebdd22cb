------------------------------ MODULE PortEdits ------------------------------
(* The ranges of a short port in a user's hands. *)
EXTENDS Ports, Json
CONSTANTS Tier
VARIABLES start, rs, hist
vars == <<start, rs, hist>>
Starts == {"80", "8080:80", "1-3", "5-7:1-3", "0-65535", "0-65535:0-65535", "65534-65535:0-1"}
Ranges == {"80", "0", "65535", "1-3", "2-4", "1-2", "0-65535", "0-65534", "1-65535"}
E(k, v) == [e |-> k, v |-> v]
Edits == {E("take", "")} \cup {E("host", r) : r \in Ranges} \cup {E("container", r) : r \in Ranges}
MaxEdits == IF Tier = "thorough" THEN 4 ELSE 3
Init == start \in Starts /\ rs = ParseRanges(Chars(start))[1] /\ hist = <<>>
Edit(e) == /\ Len(hist) < MaxEdits
           /\ LET n == ApplyPortEdit(rs, e) IN rs' = IF IsNone(n) THEN rs ELSE n[1]
           /\ hist' = Append(hist, e) /\ UNCHANGED start
Next == \E e \in Edits : Edit(e)
\* Both sides always have the same length, and the text denotes the ranges.
SameLength == IsSome(rs.host) => Span(rs.host[1]) = Span(rs.container)
TextDenotes == ParseRanges(Chars(ShowRanges(rs))) = Some(rs)
\* An edit of one side leaves the other alone.
Frame == [][LET e == hist'[Len(hist')].e
            IN /\ (e = "host" => rs'.container = rs.container)
               /\ (e = "take" => rs'.container = rs.container /\ IsNone(rs'.host))
               /\ (e = "container" => rs'.host = rs.host)]_vars
Emit == (Len(hist) = MaxEdits) =>
    PrintT("CASE " \o ToJson([op |-> "port.edits", in |-> [s |-> start, es |-> hist],
                              out |-> EvalPortEdits(start, hist)]))
=============================================================================
