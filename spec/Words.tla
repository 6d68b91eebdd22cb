-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Any text of a language's own words, in any order: whatever it denotes,  *)
(* if anything, reading it and using what was read comes to an end.        *)
(***************************************************************************)
EXTENDS Alphabets, Eval, Json
CONSTANTS Tier, Language, Grain
VARIABLES words
WordsOf == IF Grain = "inner" THEN Inner(Language) ELSE IF Grain = "fine" THEN Fine(Language) ELSE Coarse(Language)
Longest == CASE Grain = "inner" -> InnerDepth(Language, Tier) [] Grain = "fine" -> FineDepth(Language, Tier)
             [] OTHER -> CoarseDepth(Language, Tier)
Init == words = <<>>
Next == Len(words) < Longest /\ \E w \in WordsOf : words' = Append(words, w)
Spoken == LET around == IF Grain = "inner" THEN InnerAround(Language) ELSE <<"", "">> IN around[1] \o Join(words) \o around[2]
Emit == Tractable(Language, Spoken) =>
        PrintT("CASE " \o ToJson([op |-> "total.of", in |-> [op |-> Language, s |-> Spoken], out |-> [answers |-> TRUE]]))
=============================================================================
