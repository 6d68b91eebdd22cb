-------------------------------- MODULE Spans --------------------------------
(***************************************************************************)
(* Sets of CPUs given as intervals, short and long, apart, adjacent or     *)
(* overlapping, in any order.                                              *)
(***************************************************************************)
EXTENDS Eval, Json
CONSTANTS Tier
VARIABLES spans
Ends == {0, 1, 2, 7, 8, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1023, 1024, 2000} \cup (IF Tier = "thorough" THEN {3, 9, 62, 66, 129, 254, 258, 511, 512, 513, 1025, 4095, 4096} ELSE {})
Far == {"4294967294", "4294967295", "4294967296", "18446744073709551613", "18446744073709551614", "18446744073709551615"}
Within2 == {NatStr(a) \o "-" \o NatStr(b) : a \in Ends, b \in Ends} \cup {NatStr(a) : a \in Ends}
FarOff == Far \cup {"4294967290-4294967297", "18446744073709551600-18446744073709551615", "18446744073709551614-18446744073709551615"}
Second == LET few == IF Tier = "thorough" THEN Ends ELSE {0, 2, 7, 64, 255, 257, 301, 1023}
          IN {NatStr(a) \o "-" \o NatStr(b) : a \in few, b \in few} \cup {NatStr(a) : a \in few}
Third == {"5", "0-3", "256-257", "258", "2001", "1-299"}
Init == spans = <<>>
Next == \/ Len(spans) = 0 /\ \E x \in Within2 \cup FarOff : spans' = <<x>>
        \/ Len(spans) = 1 /\ \E x \in Second \cup FarOff : spans' = Append(spans, x)
        \/ Len(spans) = 2 /\ spans[1] \in {"0-300", "7-64", "255-1024", "2", "300"} /\ \E x \in Third : spans' = Append(spans, x)
Listed == JoinWith(spans, ",")
Emit == ModerateCpus(Listed) =>
        LET v == EvalText("cpus.parse", Listed)
        IN /\ v.ok => EvalText("cpus.parse", v.text) = v
           /\ PrintT("CASE " \o ToJson([op |-> "cpus.parse", in |-> [s |-> Listed], out |-> v]))
=============================================================================
