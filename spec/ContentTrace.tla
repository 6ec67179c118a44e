---------------------------- MODULE ContentTrace ----------------------------
(* Validates cases recorded from the real code against Content. *)
EXTENDS Content, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "body" /\ Body(e.data, e.res)
  \/ e.op = "csv"  /\ CSV(e.ctype, e.data, e.res)
  \/ e.op = "json" /\ JSON(e.ctype, e.data, e.res)
  \/ e.op = "next" /\ NextContent(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ContentInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ ContentReset /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
