-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Names and keys: for each kind, the set of texts which are valid.        *)
(***************************************************************************)
EXTENDS Str

NonEmpty(cs) == Len(cs) > 0
IsProjectName(cs) ==
    /\ NonEmpty(cs) /\ cs[1] \in LowerAlnum
    /\ All(cs, LowerAlnum \cup {"_", "-"})
IsIdentifier(cs) ==
    /\ NonEmpty(cs) /\ cs[1] \in Alnum
    /\ All(cs, Alnum \cup {".", "_", "-"})
IsMapKey(cs) == NonEmpty(cs) /\ ~Has(cs, "\n")
IsExtensionKey(cs) == StartsWith(cs, <<"x", "-">>) /\ ~Has(cs, "\n")
IsLabel(cs) ==
    /\ NonEmpty(cs) /\ All(cs, Alnum \cup {"-"})
    /\ cs[1] # "-" /\ cs[Len(cs)] # "-"
IsHostname(cs) == \A i \in 1..Len(Split(cs, ".")) : IsLabel(Split(cs, ".")[i])
IsUlimitName(cs) == NonEmpty(cs) /\ All(cs, Lower)
IsUserName(cs) ==
    /\ Len(cs) \in 1..32
    /\ All(DropLast(cs, 1), Alnum \cup {"_", "-"})
    /\ cs[Len(cs)] \in Alnum \cup {"_", "-", "$"}
    /\ cs[1] # "-"
    /\ ~All(cs, Digit)
\* Unicode White_Space (those members which can be written here)
WhiteSpace == {" ", "\t", "\n", "\r", "\f", " ", " ", " ", " ", " ", " ", " ", "　", "", "", " ", " ", " ", " ", " ", " ", " ", " ", " ", " "}
IsCacheOption(cs) == NonEmpty(cs) /\ \A i \in 1..Len(cs) : cs[i] \notin WhiteSpace

Is(kind, cs) ==
    CASE kind = "key.project"     -> IsProjectName(cs)
      [] kind = "key.identifier"  -> IsIdentifier(cs)
      [] kind = "key.map"         -> IsMapKey(cs)
      [] kind = "key.extension"   -> IsExtensionKey(cs)
      [] kind = "key.hostname"    -> IsHostname(cs)
      [] kind = "key.ulimit"      -> IsUlimitName(cs)
      [] kind = "key.user"        -> IsUserName(cs)
      [] kind = "key.cacheoption" -> IsCacheOption(cs)
Kinds == {"key.project", "key.identifier", "key.map", "key.extension", "key.hostname",
          "key.ulimit", "key.user", "key.cacheoption"}

EvalKey(kind, s) == IF Is(kind, Chars(s)) THEN [ok |-> TRUE, text |-> s] ELSE [ok |-> FALSE]
=============================================================================
