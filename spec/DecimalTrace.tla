---------------------------- MODULE DecimalTrace ----------------------------
(* Validates cases recorded from the real code against Decimal. *)
EXTENDS Decimal, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "make"      /\ Make(e.r, e.v, e.s, e.n, e.res)
  \/ e.op = "parse"     /\ Parse(e.r, e.text, e.res)
  \/ e.op = "show"      /\ Show(e.r, e.res)
  \/ e.op = "cmp"       /\ Compare(e.a, e.b, e.res)
  \/ e.op = "format"    /\ Format(e.a, e.b, e.res)
  \/ e.op = "adjust"    /\ Adjust(e.a, e.b, e.res)
  \/ e.op = "negate"    /\ Negate(e.r, e.a, e.res)
  \/ e.op = "normalize" /\ Normalize(e.r, e.res)
  \/ e.op = "calc"      /\ Calc(e.f, e.r, e.a, e.b, e.res)
  \/ e.op = "quorem"    /\ QuoRem(e.q, e.r, e.a, e.o, e.res)
  \/ e.op = "divadd"    /\ DivAdd(e.r, e.a, e.o, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == DecimalInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ reg' = NoDecimals /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "calc" THEN ToString(reg) \o ToString(Results(Call.f, reg[Call.a], reg[Call.b])) ELSE ToString(reg))) /\ NextCase
=============================================================================
