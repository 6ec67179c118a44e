---------------------------- MODULE EventTrace ----------------------------
(* Validates cases recorded from the real code against Event. *)
EXTENDS Event, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "kind"     /\ UNCHANGED reg
  \/ e.op = "register" /\ Register(e.id, e.r, e.res)
  \/ e.op = "remove"   /\ RemoveReceiver(e.id, e.r, e.all, e.res)
  \/ e.op = "removeid" /\ RemoveId(e.id, e.res)
  \/ e.op = "send"     /\ Send(e.res)
  \/ e.op = "sendin"   /\ SendDuring(e.acts, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == EventInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ reg' = << >> /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(Delivery(reg))) /\ NextCase
=============================================================================
