---------------------------- MODULE JsonDocTrace ----------------------------
(* Validates cases recorded from the real code against JsonDoc. *)
EXTENDS JsonDoc, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "parse"   /\ Parse(e.data, e.end, e.res)
  \/ e.op = "iterate" /\ Iterate(e.data, e.end, e.chunks, e.res)
  \/ e.op = "next"    /\ Next_(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == JsonInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ j' = NoDoc /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString([j EXCEPT !.ends = << >>, !.chunks = << >>])) /\ NextCase
=============================================================================
