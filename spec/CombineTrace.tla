---------------------------- MODULE CombineTrace ----------------------------
(* Validates cases recorded from the real code against Combine. *)
EXTENDS Combine, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "filter"   /\ FilterOk(e.filter, e.xs, e.res)
  \/ e.op = "compose"  /\ ComposeOk(e.fs, e.x, e.res)
  \/ e.op = "ternary"  /\ (IF e.call THEN TernaryResultOk(e.b, e.t, e.f, e.res) ELSE TernaryOk(e.b, e.t, e.f, e.res))
  \/ e.op = "supplier" /\ SupplierOk(e.calls, e.threads, e.v, e.res)
  \/ e.op = "try"      /\ TryOk(e.try, e.closers, e.handler, e.res)
  \/ e.op = "assert"   /\ AssertOk(e.t, e.v, e.must, e.res)
  \/ e.op = "toslice"  /\ ToSliceOk(e.t, e.v, e.must, e.res)
  \/ e.op = "toslice2" /\ ToSlice2Ok(e.t, e.v, e.must, e.res)
  \/ e.op = "tomap"    /\ ToMapOk(e.t, e.v, e.must, e.res)
  \/ e.op = "nil"      /\ NilOk(e.f, e.t, e.v, e.res)
  \/ e.op = "must"     /\ MustOk(e.n, e.err, e.res)
  \/ e.op = "pick"     /\ PickOk(e.i, e.n, e.res)
  \/ e.op = "camel"    /\ CamelOk(e.s, e.res)
  \/ e.op = "snake"    /\ SnakeOk(e.s, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == CombineInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ combined' = 0 /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF Match(Call) THEN Combined /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k)) /\ NextCase
=============================================================================
