------------------------------- MODULE IterMC -------------------------------
EXTENDS Iter, Json, TLC
CONSTANTS MaxOps, MaxScript, Many
VARIABLES hist

Item == {[v |-> 0, e |-> ""], [v |-> 3, e |-> ""], [v |-> 0, e |-> "EOI"], [v |-> 7, e |-> "e1"]}
Scripts == UNION {[1..n -> Item] : n \in 0..MaxScript}
PartSet == {[script |-> s, nil |-> FALSE] : s \in Scripts} \cup {[script |-> << >>, nil |-> TRUE]}

Log(o) == hist' = Append(hist, o)

Init == IterInit /\ hist = << >>

Create ==
  /\ shape = "none" /\ hist = << >>
  /\ \E sh \in {"of", "concat"}, se \in {"", "e2"} :
       \E ps \in [1..(IF sh = "of" THEN 1 ELSE Many) -> PartSet] :
         /\ (sh = "of" => ~ps[1].nil)
         /\ New(sh, ps, se)
         /\ Log([op |-> "new", shape |-> sh, parts |-> ps, seterr |-> se, res |-> [v |-> 0, e |-> "", c |-> [i \in 1..Len(ps) |-> 0]]])

NextRes == IF outer.buf # << >> THEN [v |-> outer.buf[Len(outer.buf)], e |-> "", c |-> Calls(parts)]
           ELSE IF outer.err # "" THEN [v |-> 0, e |-> outer.err, c |-> Calls(parts)]
           ELSE LET r == Pull IN [v |-> r.v, e |-> IF r.e # "" /\ seterr # "" THEN seterr ELSE r.e, c |-> Calls(r.ps)]

Step ==
  /\ shape # "none" /\ Len(hist) < MaxOps
  /\ \/ Next_(NextRes) /\ Log([op |-> "next", res |-> NextRes])
     \/ LET u == [v |-> 0, e |-> "", c |-> Calls(parts)] IN
          \/ Len(outer.buf) < 2 /\ Unread(Len(hist), u) /\ Log([op |-> "unread", v |-> Len(hist), res |-> u])
          \/ shape = "concat" /\ \E i \in {1, Many} : ~parts[i].nil /\ Len(parts[i].buf) < 1
               /\ UnreadPart(i, Len(hist), u) /\ Log([op |-> "unreadpart", i |-> i, v |-> Len(hist), res |-> u])

Next == Create \/ Step
Spec == Init /\ [][Next]_<<ivars, hist>>
Emit == (Len(hist) = MaxOps) => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> hist]))
=============================================================================
