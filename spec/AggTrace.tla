---------------------------- MODULE AggTrace ----------------------------
(* Validates cases recorded from the real code against Agg. *)
EXTENDS Agg, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) == e.op = "agg" /\ Call_(e.f, e.t, e.in, e.end, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == AggInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ calls' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
