------------------------------ MODULE Keywords ------------------------------
(***************************************************************************)
(* A keyword is typed, correctly, or as another set's word, or with slips  *)
(* of the finger, into each field which takes one.                         *)
(***************************************************************************)
EXTENDS Eval, Json
CONSTANTS Tier, Focus
VARIABLES set, word, slips
vars == <<set, word, slips>>
T == Tier = "thorough"

Vocabulary == UNION {{Words(s)[i] : i \in 1..Len(Words(s))} : s \in KeywordSets}
              \cup {"if_not_present", "", "Other", "null", "true", "other(x)"}
Related(s, w) == \/ T \/ w \in {Words(s)[i] : i \in 1..Len(Words(s))}
                 \/ \E i \in 1..Len(Aliases(s)) : Aliases(s)[i][1] = w
CaseOf == [c \in Lower |-> CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "g" -> "G" [] c = "h" -> "H" [] c = "i" -> "I" [] c = "j" -> "J" [] c = "k" -> "K" [] c = "l" -> "L" [] c = "m" -> "M" [] c = "n" -> "N" [] c = "o" -> "O" [] c = "p" -> "P" [] c = "q" -> "Q" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T" [] c = "u" -> "U" [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X" [] c = "y" -> "Y" [] c = "z" -> "Z"]
Fingers == {" ", "-", "_", "+", "a", "Z", "0", "\t", "é"}
Swapped(c) == IF c \in Lower THEN CaseOf[c]
              ELSE IF c \in Upper THEN CHOOSE l \in Lower : CaseOf[l] = c
              ELSE IF c = "-" THEN "_" ELSE IF c = "_" THEN "-" ELSE c
CapitalOf == [i \in 1..Len(word) |-> Swapped(word[i])]
Limit2 == IF ~Related(set, Join(word)) /\ slips = 0 THEN 0 ELSE IF T /\ Len(word) <= 8 THEN 2 ELSE 1

Init == /\ set \in Focus /\ slips = 0
        /\ word \in {Chars(w) : w \in Vocabulary}
Slip(w) == /\ slips < Limit2 /\ slips' = slips + 1 /\ word' = w /\ UNCHANGED set
Drop == \E i \in 1..Len(word) : Slip(Before(word, i) \o After(word, i))
Insert == \E i \in 0..Len(word) : \E c \in Fingers : Slip(SubSeq(word, 1, i) \o <<c>> \o After(word, i))
Change == \E i \in 1..Len(word) : \E c \in {Swapped(word[i])} \cup (IF T THEN Fingers ELSE {}) : Slip([word EXCEPT ![i] = c])
Swap == \E i \in 1..(Len(word) - 1) : Slip([word EXCEPT ![i] = word[i + 1], ![i + 1] = word[i]])
Capitals == Slip(CapitalOf)
Twice == Slip(word \o word)
Next == Drop \/ Insert \/ Change \/ Swap \/ Capitals \/ Twice

\* What is written is read as the same, and distinct words mean distinct things.
WrittenIsRead == LET r == EvalKeyword(set, Join(word)) IN r.ok => EvalKeyword(set, r.text) = r
Emit == /\ PrintT("CASE " \o ToJson([op |-> "kw.read", in |-> [set |-> set, s |-> Join(word)],
                                     out |-> EvalKeyword(set, Join(word))]))
        /\ slips = 0 /\ word = <<>> =>
              PrintT("CASE " \o ToJson([op |-> "kw.default", in |-> [set |-> set], out |-> EvalKeywordDefault(set)]))
=============================================================================
