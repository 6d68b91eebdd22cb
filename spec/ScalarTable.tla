----------------------------- MODULE ScalarTable -----------------------------
(* Durations made from numbers; build contexts made from parts. *)
EXTENDS Refs, Scalars, Json
CONSTANTS Tier
VARIABLES case
Secs == {"0", "1", "59", "60", "61", "3599", "3600", "3661", "86399", "36000", "18446744073709551615", "18446744073709551600"}
Nanos == {0, 1, 999, 1000, 1999, 999999, 1000000, 1000001, 1001000, 123456789, 500000000, 999999999, 10000000}
DurationsOf == {[op |-> "duration.of", in |-> [secs |-> s, nanos |-> n]] : s \in Secs, n \in Nanos}
Urls == {[op |-> "context.url", in |-> [scheme |-> sc, host |-> h, path |-> p, fragment |-> f]] :
            sc \in {"http", "https", "ssh", "git", "file"},
            h \in {"example.com", "example.com:8080"},
            p \in {"/", "/a.git", "/a/b.git", "/a.git/b", "/.git", "/git", "/a.GIT", "/a.gitx", "/a.b.git", "/xgit"},
            f \in {None} \cup {Some(x) : x \in {"", "main", "main:sub", ":sub", "main:", "v1.0:a/b", "a:b:c"}}}
\* (file URLs have no port)
LegalUrl(c) == ~(c.in.scheme = "file" /\ c.in.host # "example.com")
Init == case \in DurationsOf \cup {c \in Urls : LegalUrl(c)}
Next == FALSE /\ UNCHANGED case
Out == IF case.op = "duration.of" THEN EvalDurationOf(case.in.secs, case.in.nanos) ELSE EvalContextUrl(case.in)
\* What is written reads back as the same duration.
ReadsBack == case.op = "duration.of" => EvalDuration(Out.text) = Out
Emit == PrintT("CASE " \o ToJson([op |-> case.op, in |-> case.in, out |-> Out]))
=============================================================================
