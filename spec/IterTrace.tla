---------------------------- MODULE IterTrace ----------------------------
(* Validates cases recorded from the real code against Iter. *)
EXTENDS Iter, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "new"        /\ New(e.shape, e.parts, e.seterr)
  \/ e.op = "next"       /\ Next_(e.res)
  \/ e.op = "unread"     /\ Unread(e.v, e.res)
  \/ e.op = "unreadpart" /\ UnreadPart(e.i, e.v, e.res)
  \/ e.op = "nextpart"   /\ NextPart(e.i, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == IterInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ IterReset /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
