---------------------------- MODULE ReflectTrace ----------------------------
(* Validates cases recorded from the real code against Reflect. *)
EXTENDS Reflect, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "type"    /\ e.res = TypeFacts(e.t)
  \/ e.op = "value"   /\ e.res = ValueFacts(e.x)
  \/ e.op = "novalue" /\ e.res = NoValue
  \/ e.op = "assert"  /\ AssertOk(e.x, e.t, e.must, e.res)
  \/ e.op = "store"   /\ StoreOk(e.x, e.src, e.res)
  \/ e.op = "fields"  /\ FieldsOk(e.s, e.res)
  \/ e.op = "field"   /\ FieldOk(e.s, e.name, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ReflectInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ looked' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF Match(Call) THEN Looked /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "value" THEN ToString(ValueFacts(Call.x)) ELSE IF Call.op = "type" THEN ToString(TypeFacts(Call.t)) ELSE "")) /\ NextCase
=============================================================================
