-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: a log recorded from the real implementation (one      *)
(* operation per line, with the input given and the outcome observed) is   *)
(* accepted iff every line is a step the specification allows.             *)
(***************************************************************************)
EXTENDS Eval, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line
Init == line = 1
Allowed(l) == Conforms(l.op, l.in, l.out)
Judge(l) ==
    IF Allowed(l) THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([op |-> l.op, in |-> l.in, got |-> l.out, out |-> Eval(l.op, l.in)]))
Step == /\ line <= Len(Log)
        /\ Judge(Log[line])
        /\ line' = line + 1
Next == Step
Spec == Init /\ [][Next]_line
\* The whole log was consumed.
Complete == PrintT("TRACE-LINES " \o ToString(TLCGet("stats").diameter - 1)) /\ TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
