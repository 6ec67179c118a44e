---------------------------- MODULE RangeTrace ----------------------------
(* Validates cases recorded from the real code against Range. *)
EXTENDS Range, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "new" /\ New(e.min, e.minc, e.max, e.maxc, e.val, e.res)
  \/ e.op = "set" /\ SetValue(e.val, e.res)
  \/ e.op = "get" /\ Get(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == RangeInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ rg' = NoRange /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(rg)) /\ NextCase
=============================================================================
