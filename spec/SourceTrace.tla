---------------------------- MODULE SourceTrace ----------------------------
(* Validates cases recorded from the real code against Source. *)
EXTENDS Source, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "seq"  /\ OpenSeq(e.items)
  \/ e.op = "map"  /\ OpenMap(e.pairs)
  \/ e.op = "inf"  /\ OpenInfinite(e.f, e.init)
  \/ e.op = "fib"  /\ OpenFib
  \/ e.op = "csv"  /\ OpenCSV(e.rows)
  \/ e.op = "csvtext" /\ OpenText(e.text, e.end)
  \/ e.op = "next" /\ Next_(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == SourceInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ src' = Nothing /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(src)) /\ NextCase
=============================================================================
