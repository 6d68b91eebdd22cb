------------------------------ MODULE PortTable ------------------------------
(***************************************************************************)
(* Port ranges from numbers, and every combination of settings of a long   *)
(* port.                                                                   *)
(***************************************************************************)
EXTENDS Ports, Json
CONSTANTS Tier
VARIABLES case
Edge == {0, 1, 2, 79, 80, 255, 256, 32767, 32768, 65534, 65535}
        \cup IF Tier = "thorough" THEN {3, 9, 10, 11, 99, 100, 101, 999, 1000, 1024, 9999, 10000, 49152, 65530, 65533} ELSE {}
Ends == {None} \cup {Some(e) : e \in Edge}
News == {[op |-> "range.new", in |-> [s |-> s, e |-> e]] : s \in Edge, e \in Ends}
Shifts == {[op |-> "range.shift", in |-> [s |-> s, e |-> e, k |-> k]] :
              s \in {0, 1, 80, 65534}, e \in {None, Some(65535), Some(90), Some(2)}, k \in {-65535, -90, -82, -81, -80, -2, -1, 0, 1, 2, 10, 65535}}
Longs == {[op |-> "port.shorten",
           in |-> [target |-> t, published |-> p, host_ip |-> ip, protocol |-> pr, name |-> n,
                   app_protocol |-> a, mode |-> m, ext |-> x]] :
             t \in {0, 80, 65535}, p \in {None, Some("0"), Some("8080"), Some("65535"), Some("8080-8081"), Some("0-65535")},
             ip \in {None, Some("127.0.0.1"), Some("::1"), Some("::ffff:1.2.3.4"), Some("2001:db8::")},
             pr \in {None, Some("tcp"), Some("udp"), Some("sctp"), Some("")}, n \in {None, Some("web")}, a \in {None, Some("http")},
             m \in {None, Some("host"), Some("ingress")}, x \in {None, Some("x-a")}}
Ints == {[op |-> "port.int", in |-> [k |-> k, n |-> n]] : k \in {"range", "ranges", "expose", "port"},
            n \in {-65536, -1, 0, 1, 80, 255, 65534, 65535, 65536, 65616, 131071}}
Cases == Ints \cup News \cup Shifts \cup Longs
Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Out == CASE case.op = "range.new" -> EvalRangeNew(case.in.s, case.in.e)
         [] case.op = "range.shift" -> EvalRangeShift(case.in.s, case.in.e, case.in.k)
         [] case.op = "port.int" -> EvalPortInt(case.in.k, case.in.n)
         [] case.op = "port.shorten" -> EvalShorten(case.in)
\* A range never ends at or before its start.
Forward == (case.op \in {"range.new", "range.shift"} /\ Out.ok) => (IsNone(Out.end) \/ Out.start < Out.end[1])
\* What was shortened expands to exactly the long port it came from.
ShortenedExpands ==
    (case.op = "port.shorten" /\ Out.ok) =>
        LET x == EvalExpand(Out.text)
            l == case.in
        IN /\ x.ok /\ x.count = 1
           /\ x.first = [target |-> l.target,
                         published |-> IF IsNone(l.published) THEN None ELSE Some(ParseRange(Chars(l.published[1]))[1].s),
                         host_ip |-> l.host_ip, protocol |-> l.protocol]
Emit == PrintT("CASE " \o ToJson([op |-> case.op, in |-> case.in, out |-> Out]))
=============================================================================
