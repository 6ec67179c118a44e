---------------------------- MODULE JsonValueTrace ----------------------------
(* Validates cases recorded from the real code against JsonValue. *)
EXTENDS JsonValue, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "tovalue" /\ ToValue(e.node, e.res)
  \/ e.op = "apart"   /\ Apart(e.v, e.res)
  \/ e.op = "path"    /\ ParsePath(e.p, e.res)
  \/ e.op = "lookup"  /\ Lookup(e.v, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ValueInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ path' = NoPath /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "lookup" THEN ToString(Walk(Call.v, 1, path.steps)) ELSE IF Call.op = "apart" THEN ToString(Accessors(Call.v)) ELSE "")) /\ NextCase
=============================================================================
