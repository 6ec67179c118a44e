---------------------------- MODULE ModelTrace ----------------------------
(* Validates cases recorded from the real code against Model. *)
EXTENDS Model, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "type"     /\ e.res = TypeDef(e.x)
  \/ e.op = "sort"     /\ e.res = Sort(e.typ)
  \/ e.op = "value"    /\ e.res = Value(e.x)
  \/ e.op = "operator" /\ e.res = Operator(e.o)
  \/ e.op = "expr"     /\ ExprOk(e.o, e.vals, e.res)
  \/ e.op = "tuple"    /\ e.res = Tuple(e.vals)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ModelInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ model' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF Match(Call) THEN Modelled /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
