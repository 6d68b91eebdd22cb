------------------------------- MODULE Ports -------------------------------
(***************************************************************************)
(* Port ranges, short and long published ports, exposed ports.             *)
(* A range is [s |-> start, e |-> optional end], with start < end.         *)
(***************************************************************************)
EXTENDS Ip

Port16 == 0..65535
PR(s, e) == [s |-> s, e |-> e]
\* Make a range: an equal end is no end, a smaller one is refused.
MakeRange(s, e) ==
    IF IsNone(e) \/ e[1] = s THEN Some(PR(s, None))
    ELSE IF e[1] > s THEN Some(PR(s, e)) ELSE None
LastPort(r) == IF IsNone(r.e) THEN r.s ELSE r.e[1]
Span(r) == LastPort(r) - r.s
\* The number of ports; as a 16-bit number, so all 65536 ports report as 65535.
Size(r) == IF Span(r) = 65535 THEN 65535 ELSE Span(r) + 1

ParsePort(cs) == LET d == ParseU(cs, U16Max) IN IF IsNone(d) THEN None ELSE Some(SmallVal(d[1]))
ParseRange(cs) ==
    LET i == First(cs, "-")
        s == ParsePort(IF i = 0 THEN cs ELSE Before(cs, i))
        e == IF i = 0 THEN None ELSE ParsePort(After(cs, i))
    IN IF IsNone(s) \/ (i > 0 /\ IsNone(e)) THEN None ELSE MakeRange(s[1], e)
ShowRange(r) == NatStr(r.s) \o (IF IsNone(r.e) THEN "" ELSE "-" \o NatStr(r.e[1]))

\* What a value looks like when written to YAML: an integer or a string.
YInt(s) == [t |-> "i", v |-> s]
YStr(s) == [t |-> "s", v |-> s]
YamlRange(r) == IF IsNone(r.e) THEN YInt(ShowRange(r)) ELSE YStr(ShowRange(r))

ViewRange(r) ==
    [ok |-> TRUE, text |-> ShowRange(r), yaml |-> YamlRange(r), start |-> r.s, end |-> r.e, size |-> Size(r),
     first |-> r.s, last |-> LastPort(r), count |-> Span(r) + 1]
EvalRange(s) == LET r == ParseRange(Chars(s)) IN IF IsNone(r) THEN [ok |-> FALSE] ELSE ViewRange(r[1])
EvalRangeNew(s, e) == LET r == MakeRange(s, e) IN IF IsNone(r) THEN [ok |-> FALSE] ELSE ViewRange(r[1])
\* Shift a range by k ports; beyond the ports there are, there is no such range.
EvalRangeShift(s, e, k) ==
    LET m == MakeRange(s, e)
        r == m[1]
    IN IF IsNone(m) \/ r.s + k < 0 \/ LastPort(r) + k > 65535 THEN [ok |-> FALSE]
       ELSE ViewRange(PR(r.s + k, IF IsNone(r.e) THEN None ELSE Some(r.e[1] + k)))

\* Exposed ports: {range}[/{protocol}]
EvalExpose(s) ==
    LET cs == Chars(s)
        i == First(cs, "/")
        r == ParseRange(IF i = 0 THEN cs ELSE Before(cs, i))
        p == IF i = 0 THEN None ELSE Some(Join(After(cs, i)))
    IN IF IsNone(r) THEN [ok |-> FALSE]
       ELSE LET text == ShowRange(r[1]) \o (IF IsNone(p) THEN "" ELSE "/" \o p[1])
            IN [ok |-> TRUE, text |-> text,
                yaml |-> IF IsNone(p) THEN YamlRange(r[1]) ELSE YStr(text),
                range |-> ShowRange(r[1]), protocol |-> p]

(***************************************************************************)
(* Short published ports: [[{host_ip}:][{host}]:]{container}[/{protocol}]  *)
(***************************************************************************)
MakeRanges(h, c) ==
    IF IsSome(h) /\ Span(h[1]) # Span(c) THEN None ELSE Some([host |-> h, container |-> c])
ParseRanges(cs) ==
    LET i == First(cs, ":")
        h == IF i <= 1 THEN None ELSE ParseRange(Before(cs, i))
        c == ParseRange(IF i = 0 THEN cs ELSE After(cs, i))
    IN IF IsNone(c) \/ (i > 1 /\ IsNone(h)) THEN None ELSE MakeRanges(h, c[1])
ShowRanges(rs) ==
    (IF IsNone(rs.host) THEN "" ELSE ShowRange(rs.host[1]) \o ":") \o ShowRange(rs.container)
YamlRanges(rs) == IF IsSome(rs.host) THEN YStr(ShowRanges(rs)) ELSE YamlRange(rs.container)
OptRange(o) == IF IsNone(o) THEN None ELSE Some(ShowRange(o[1]))
ViewRanges(rs) ==
    [ok |-> TRUE, text |-> ShowRanges(rs), yaml |-> YamlRanges(rs),
     host |-> OptRange(rs.host), container |-> ShowRange(rs.container)]
EvalRanges(s) == LET r == ParseRanges(Chars(s)) IN IF IsNone(r) THEN [ok |-> FALSE] ELSE ViewRanges(r[1])

\* Position of the second to last ':', 0 when there are fewer than two.
SecondToLastColon(cs) ==
    LET l == LastPos(cs, ":") IN IF l = 0 THEN 0 ELSE LastPos(Before(cs, l), ":")
ParseShortPort(cs) ==
    LET slash == First(cs, "/")
        body == IF slash = 0 THEN cs ELSE Before(cs, slash)
        proto == IF slash = 0 THEN None ELSE Some(Join(After(cs, slash)))
        k == SecondToLastColon(body)
        ip == IF k = 0 THEN None ELSE ParseIp(StripBrackets(Before(body, k)))
        rs == ParseRanges(IF k = 0 THEN body ELSE After(body, k))
    IN IF IsNone(rs) \/ (k > 0 /\ IsNone(ip)) THEN None
       ELSE Some([ip |-> IF IsNone(ip) THEN None ELSE Some(ShowIp(ip[1])), rs |-> rs[1], proto |-> proto])
ShowShortPort(p) ==
    (IF IsNone(p.ip) THEN "" ELSE p.ip[1] \o ":" \o (IF IsNone(p.rs.host) THEN ":" ELSE ""))
    \o ShowRanges(p.rs) \o (IF IsNone(p.proto) THEN "" ELSE "/" \o p.proto[1])
\* The i-th (from 0) long entry a short port stands for.
LongEntry(p, i) ==
    [target |-> p.rs.container.s + i,
     published |-> IF IsNone(p.rs.host) THEN None ELSE Some(p.rs.host[1].s + i),
     host_ip |-> p.ip, protocol |-> p.proto]
ViewShortPort(p) ==
    [ok |-> TRUE, text |-> ShowShortPort(p),
     yaml |-> IF IsSome(p.ip) \/ IsSome(p.proto) THEN YStr(ShowShortPort(p)) ELSE YamlRanges(p.rs),
     host_ip |-> p.ip, host |-> OptRange(p.rs.host), container |-> ShowRange(p.rs.container),
     protocol |-> p.proto]
EvalShortPort(s) ==
    LET p == ParseShortPort(Chars(s)) IN IF IsNone(p) THEN [ok |-> FALSE] ELSE ViewShortPort(p[1])
\* Expansion: how many long entries, the first, the second and the last.
EvalExpand(s) ==
    LET o == ParseShortPort(Chars(s))
    IN IF IsNone(o) THEN [ok |-> FALSE]
       ELSE LET p == o[1]
                n == Span(p.rs.container) + 1
            IN [ok |-> TRUE, text |-> ShowShortPort(p), count |-> n, first |-> LongEntry(p, 0),
                second |-> IF n > 1 THEN Some(LongEntry(p, 1)) ELSE None, last |-> LongEntry(p, n - 1)]

\* A port given as an integer: what its digits mean as a text, if it fits.
EvalPortInt(k, n) ==
    IF n < 0 THEN [ok |-> FALSE]
    ELSE CASE k = "range" -> EvalRange(NatStr(n))
           [] k = "ranges" -> EvalRanges(NatStr(n))
           [] k = "expose" -> EvalExpose(NatStr(n))
           [] k = "port" -> EvalShortPort(NatStr(n))

(***************************************************************************)
(* Shortening a long port: possible exactly when nothing is set that the   *)
(* short form cannot say.  (A range of published ports for one target has  *)
(* no short form: both sides of a short port have the same length.)        *)
(***************************************************************************)
EvalShorten(l) ==
    IF IsSome(l.name) \/ IsSome(l.app_protocol) \/ IsSome(l.mode) \/ IsSome(l.ext)
       \/ (IsSome(l.published) /\ IsSome(ParseRange(Chars(l.published[1]))[1].e))
    THEN [ok |-> FALSE]
    ELSE LET p == [ip |-> l.host_ip,
                   rs |-> [host |-> IF IsNone(l.published) THEN None ELSE ParseRange(Chars(l.published[1])),
                           container |-> PR(l.target, None)],
                   proto |-> l.protocol]
         IN [ok |-> TRUE, text |-> ShowShortPort(p)]

(***************************************************************************)
(* Editing the ranges of a short port.                                     *)
(***************************************************************************)
ApplyPortEdit(rs, e) ==
    CASE e.e = "host" -> MakeRanges(ParseRange(Chars(e.v)), rs.container)
      [] e.e = "container" -> MakeRanges(rs.host, ParseRange(Chars(e.v))[1])
      [] e.e = "take" -> MakeRanges(None, rs.container)
RECURSIVE PortViews(_, _)
PortViews(rs, es) ==
    IF Len(es) = 0 THEN <<>>
    ELSE LET n == ApplyPortEdit(rs, es[1])
             after == IF IsNone(n) THEN rs ELSE n[1]
         IN <<[done |-> IsSome(n), after |-> ViewRanges(after)]>> \o PortViews(after, Tail(es))
EvalPortEdits(s, es) ==
    LET r == ParseRanges(Chars(s))
    IN [views |-> IF IsNone(r) THEN <<>> ELSE PortViews(r[1], es)]
=============================================================================
