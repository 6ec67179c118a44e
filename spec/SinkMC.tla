------------------------------- MODULE SinkMC -------------------------------
(* All sequences of writes of few values to every kind of writer whose destination fails at every place *)
EXTENDS Sink, Json, TLC
CONSTANTS MaxOps, MaxVals, MaxScript, MaxRoom
VARIABLE ops

Vals(kind) == CASE kind \in {"fn", "slice"} -> {1, 2}
                [] kind = "map" -> {<<1, 1>>, <<1, 2>>, <<2, 1>>}
                [] kind = "bytes" -> {0, 255}
                [] kind = "runes" -> {65, 233, 65535, 128512}
                [] kind \in {"strings", "lines"} -> {<< >>, <<10>>, <<233, 66>>}
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Scripts(kind) == IF kind \in {"slice", "map"} THEN {<< >>}
                 ELSE Seqs([room : 0..MaxRoom, how : IF kind = "fn" THEN {"err"} ELSE {"err", "short"}], MaxScript)
Init == SinkInit /\ ops = << >>
More(o) == ops' = Append(ops, o)
NextOpen == \E kind \in {"fn", "slice", "map", "bytes", "runes", "strings", "lines"} : \E s \in Scripts(kind) :
              Open(kind, s) /\ More([op |-> "open", kind |-> kind, script |-> s])
NextWrite == \E vals \in Seqs(Vals(w.kind), MaxVals) :
               LET us == Units(w.kind, vals)
                   fails == w.script # << >> /\ Len(us) > w.script[1].room
                   res == IF fails THEN [e |-> w.script[1].how, got |-> SubSeq(us, 1, w.script[1].room)] ELSE [e |-> "", got |-> us]
               IN  Write(vals, res) /\ More([op |-> "write", vals |-> vals, res |-> res])
Next == IF ops = << >> THEN NextOpen
        ELSE Len(ops) <= MaxOps /\ NextWrite
Spec == Init /\ [][Next]_<<w, ops>>

Emit == Len(ops) = MaxOps + 1 /\ w.kind # "map" => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> Append(ops, [op |-> "output", res |-> w.out])]))
\* what the destination has is what all calls accepted together
Kept == w.out = Cat([i \in 1..Len(ops) |-> IF ops[i].op = "write" THEN ops[i].res.got ELSE << >>])
\* a call without an error has delivered everything, one with an error has not
Honest == \A i \in 1..Len(ops) : ops[i].op = "write" =>
             LET us == Units(w.kind, ops[i].vals) IN IF ops[i].res.e = "" THEN ops[i].res.got = us ELSE Len(ops[i].res.got) < Len(us)
=============================================================================
