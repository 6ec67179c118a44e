---------------------------- MODULE ConvTrace ----------------------------
(* Validates cases recorded from the real code against Conv. *)
EXTENDS Conv, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "conv"  /\ ConvertOk(e.from, e.to, e.x, e.res)
  \/ e.op = "norm"  /\ NormalizedOk(e.x.v, e.res)
  \/ e.op = "floattext" /\ FloatTextOk(e.x.s, e.res)
  \/ e.op = "nil" /\ NilSourceOk(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ConvInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ convs' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF Match(Call) THEN Converted /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
