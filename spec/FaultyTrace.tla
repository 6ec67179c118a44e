---------------------------- MODULE FaultyTrace ----------------------------
(* Validates cases recorded from the real code against Faulty. *)
EXTENDS Faulty, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "reader" /\ OpenReader(e.data)
  \/ e.op = "writer" /\ OpenWriter(e.count)
  \/ e.op = "read"   /\ Read(e.n, e.res)
  \/ e.op = "write"  /\ Write(e.data, e.res)
  \/ e.op = "output" /\ Output(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == FaultyInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ f' = NoFaulty /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(f)) /\ NextCase
=============================================================================
