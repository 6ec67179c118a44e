---------------------------- MODULE ParallelTrace ----------------------------
(* Validates cases recorded from the real code against Parallel. *)
EXTENDS Parallel, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

AsAny(any, l) == IF any THEN Lst([i \in DOMAIN l.vs |-> IF l.vs[i][1] % 3 = 0 THEN <<-999>> ELSE l.vs[i]], l.e) ELSE l
Match(e) == /\ e.op = "parallel"
            /\ \E o \in Outcomes(e.stages, e.unit, e.n, e.items, e.end) : LET a == AsAny(e.any, o) IN e.res = [vs |-> a.vs, e |-> a.e]
            /\ UNCHANGED <<svars, pvars>>

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == StreamInit /\ ParInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ UNCHANGED <<svars, pvars>> /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "parallel" THEN Outcomes(Call.stages, Call.unit, Call.n, Call.items, Call.end) ELSE {})) /\ NextCase
=============================================================================
