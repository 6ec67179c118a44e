---------------------------- MODULE CollectTrace ----------------------------
(* Validates cases recorded from the real code against Collect. *)
EXTENDS Collect, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

Tuples == Cases[c].ops[1].op = "open" /\ Cases[c].ops[1].kind = "ordered"
Match(e) ==
  \/ e.op = "slice"  /\ Slice(e, e.res)
  \/ e.op = "open"   /\ UNCHANGED mp
  \/ e.op = "set"    /\ Set(e.p, e.v, e.res)
  \/ e.op = "unset"  /\ (IF Tuples THEN TupleRemoveKey(e.p, e.res) ELSE Unset(e.p, e.res))
  \/ e.op = "test"   /\ Test(e.p, e.res)
  \/ e.op = "index"  /\ Index(e.p, e.default, e.res)
  \/ e.op = "keys"   /\ Keys(e.res)
  \/ e.op = "sorted" /\ Sorted(e.by, e.res)
  \/ e.op = "add"    /\ (IF Tuples THEN TupleAdd(e.p, e.v, e.res) ELSE AddTo(e.p, e.v, e.res))
  \/ e.op = "remove" /\ (IF Tuples THEN TupleRemove(e.p, e.v, e.all, e.res) ELSE RemoveFrom(e.p, e.v, e.all, e.res))
  \/ e.op = "search" /\ TupleSearch(e.k, e.res)

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == CollectInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ mp' = NoEntries /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(mp)) /\ NextCase
=============================================================================
