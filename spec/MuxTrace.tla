---------------------------- MODULE MuxTrace ----------------------------
(* Validates cases recorded from the real code against Mux. *)
EXTENDS Mux, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "handle"     /\ Handle(e.reg, e.bad # "", e.res)
  \/ e.op = "request"    /\ Request(e.m, e.path, e.res)
  \/ e.op = "reentrant"  /\ Reentrant(e.m, e.path, e.reg, e.res)
  \/ e.op = "concurrent" /\ Concurrent(e.regs, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == MuxInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ mux' = << >> /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op \in {"request", "reentrant"} THEN ToString(Answer(mux, Call.m, Call.path)) ELSE "")) /\ NextCase
=============================================================================
