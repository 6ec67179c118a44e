---------------------------- MODULE StreamEffectsTrace ----------------------------
(* Validates cases recorded from the real code against Stream. *)
EXTENDS Stream, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

\* a panic of the code under test ends what can be said about its further effects
Match(e) ==
  \/ e.op = "compose"  /\ Compose(e.stages)
  \/ e.op = "apply"    /\ LET P == Applied(e.src) IN Apply(e.src, e.eff) /\ e.res = [v |-> << >>, e |-> ""]
  \/ e.op = "next"     /\ LET P == Nexted(e.i, e.res.v) IN Next_(e.i, NextRes(P), e.eff, e.res.v)
  \/ e.op = "contents" /\ UNCHANGED svars

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == StreamInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ StreamReset /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(IF Call.op = "next" THEN [res |-> NextRes(Nexted(Call.i, Call.res.v)), eff |-> Eff(Nexted(Call.i, Call.res.v))] ELSE [res |-> [v |-> slc, e |-> ""], eff |-> [c |-> 0, cb |-> << >>]])) /\ NextCase
=============================================================================
