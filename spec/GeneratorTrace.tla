---------------------------- MODULE GeneratorTrace ----------------------------
(* Validates cases recorded from the real code against Generator. *)
EXTENDS Generator, Json, IOUtils, TLC
VARIABLES c, k
Cases == ndJsonDeserialize(IOEnv.TRACE)

After(e) == {e.tree[i] : i \in 1..Len(e.tree)}
\* once setting the base failed, nothing is said about the generator
Match(e) ==
  \/ e.op = "open" /\ Open(After(e))
  \/ e.op = "new"  /\ Fresh
  \/ e.op \notin {"open", "new"} /\ gen.dead /\ UNCHANGED gen
  \/ e.op = "setbase" /\ ~gen.dead /\ SetBase(e.p, e.res.r, After(e.res))
  \/ e.op = "getbase" /\ ~gen.dead /\ GetBase(e.res.r, e.res.same, After(e.res))
  \/ e.op = "dir"     /\ ~gen.dead /\ MakeDir(e.p, e.res.r, After(e.res))
  \/ e.op = "src"     /\ ~gen.dead /\ MakeSrc(e.name, e.res.r, After(e.res))
  \/ e.op = "lock"    /\ ~gen.dead /\ Lock(e.p, e.res.r, After(e.res))
  \/ e.op = "unlock"  /\ ~gen.dead /\ Unlock(e.p, e.res.r, After(e.res))
  \/ e.op = "write"   /\ ~gen.dead /\ Write(e.at, e.ss, e.res.r, After(e.res))

\* ---- the same in every trace module: consume the recorded calls case by case; report a call the specification does
\* not allow, and go on with the next case
Call == Cases[c].ops[k]
TraceInit == GeneratorInit /\ c = 1 /\ k = 1
NextCase == c' = c + 1 /\ k' = 1 /\ gen' = << >> /\ (c = Len(Cases) => PrintT("DONE " \o ToString(c)))
TraceNext ==
  /\ c <= Len(Cases)
  /\ IF k > Len(Cases[c].ops) THEN NextCase
     ELSE IF ENABLED Match(Call) THEN Match(Call) /\ k' = k + 1 /\ UNCHANGED c
     ELSE PrintT("REJECT " \o ToString(c) \o " " \o ToString(k) \o " " \o ToString(gen)) /\ NextCase
=============================================================================
