------------------------------ MODULE FaultyMC ------------------------------
EXTENDS Faulty, Json, TLC
CONSTANTS MaxOps, MaxLen
VARIABLE ops
Bytes(n) == [i \in 1..n |-> 96 + i]
Init == FaultyInit /\ ops = << >>
More(o) == ops' = Append(ops, o)
Next ==
  IF ops = << >>
  THEN \/ \E n \in 0..MaxLen : OpenReader(Bytes(n)) /\ More([op |-> "reader", data |-> Bytes(n)])
       \/ \E n \in -2..MaxLen : OpenWriter(n) /\ More([op |-> "writer", count |-> n])
  ELSE /\ Len(ops) <= MaxOps
       /\ IF f.kind = "reader"
          THEN \E n \in 0..(MaxLen + 1) :
                 LET r == IF f.data = << >> THEN [n |-> 0, e |-> "err", data |-> << >>] ELSE [n |-> Min(n, Len(f.data)), e |-> "", data |-> SubSeq(f.data, 1, Min(n, Len(f.data)))]
                 IN  Read(n, r) /\ More([op |-> "read", n |-> n, res |-> r])
          ELSE \E n \in 0..(MaxLen + 1) :
                 LET r == IF f.count < 0 THEN [n |-> 0, e |-> ""] ELSE IF Len(f.data) = f.count THEN [n |-> 0, e |-> "err"] ELSE [n |-> Min(n, f.count - Len(f.data)), e |-> ""]
                 IN  Write(Bytes(n), r) /\ More([op |-> "write", data |-> Bytes(n), res |-> r])
Spec == Init /\ [][Next]_<<f, ops>>
Emit == Len(ops) = MaxOps + 1 => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> IF f.kind = "writer" THEN Append(ops, [op |-> "output", res |-> f.data]) ELSE ops]))
\* nothing is lost or repeated, and an error comes exactly when nothing is left
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
Conserved == f.kind = "reader" => Cat([i \in 1..Len(ops) |-> IF ops[i].op = "read" THEN ops[i].res.data ELSE << >>]) \o f.data = ops[1].data
Bounded == f.kind = "writer" => Len(f.data) <= (IF f.count < 0 THEN 0 ELSE f.count)
ErrorsStay == \A i, j \in 2..Len(ops) : i < j /\ ops[i].op \in {"read", "write"} /\ ops[i].res.e = "err" => ops[j].res.e = "err"
=============================================================================
