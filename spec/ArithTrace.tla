---------------------------- MODULE ArithTrace ----------------------------
(* Validates cases recorded from the real code against Arith. *)
EXTENDS Arith, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "calc"   /\ Calculate(e.f, e.t, e.a, e.b, e.res)
  \/ e.op = "row8"   /\ CalculateRow(e.f, e.t, e.a, e.res)
  \/ e.op = "bigdiv" /\ BigDivide(e.t, e.alias, e.a, e.b, e.res)
  \/ e.op = "fdiv"   /\ FloatDivide(e.t, e.alias, e.q0, e.a, e.b, e.res)
  \/ e.op = "fabs"   /\ Absolute(e.t, e.a, e.res)
  \/ e.op = "order"  /\ Compare(e.kind, e.f, e.a, e.b, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == ArithInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ calcs' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "calc" THEN ToString(Calc(Call.f, Call.t, Call.a, Call.b)) ELSE "")) /\ NextCase
=============================================================================
