---------------------------- MODULE UnionTrace ----------------------------
(* Validates cases recorded from the real code against Union. *)
EXTENDS Union, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Match(e) ==
  \/ e.op = "open"       /\ Open(e.kind, e.t, e.n)
  \/ e.op = "copy"       /\ Copy(e.at, e.from, e.res)
  \/ e.op = "make"       /\ Make(e.at, e.w, e.v, e.res)
  \/ e.op = "which"      /\ Which(e.at, e.res)
  \/ e.op = "member"     /\ Member(e.at, e.w, e.res)
  \/ e.op = "of"         /\ OfMaybe(e.at, e.v, e.res)
  \/ e.op = "empty"      /\ MakeEmpty(e.at, e.res)
  \/ e.op = "present"    /\ MakePresent(e.at, e.v, e.res)
  \/ e.op = "first"      /\ First(e.at, e.vs, e.res)
  \/ e.op = "setorerror" /\ SetOrError(e.at, e.v, e.res)
  \/ e.op = "has"        /\ Present(e.at, e.res)
  \/ e.op = "get"        /\ GetMaybe(e.at, e.res)
  \/ e.op = "orelse"     /\ OrElse(e.at, e.v, e.res)
  \/ e.op = "orerror"    /\ OrError(e.at, e.err, e.res)
  \/ e.op = "ofresult"   /\ OfResult(e.at, e.v, e.res)
  \/ e.op = "oferror"    /\ OfError(e.at, e.err, e.res)
  \/ e.op = "ofboth"     /\ OfResultError(e.at, e.v, e.err, e.res)
  \/ e.op = "result"     /\ Result(e.at, e.res)
  \/ e.op = "string"     /\ String(e.at, e.res)
  \/ e.op = "rpresent"   /\ RPresent(e.at, e.way, e.res)
  \/ e.op = "rget"       /\ RGet(e.at, e.way, e.res)
  \/ e.op = "rtype"      /\ RType(e.at, e.way, e.res)
  \/ e.op = "rset"       /\ RSet(e.at, e.way, e.what, e.v, e.res)
  \/ e.op = "rsetempty"  /\ RSetEmpty(e.at, e.way, e.res)
  \/ e.op = "rother"     /\ ROther(e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == UnionInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ un' = NoUnion /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(un)) /\ NextCase
=============================================================================
