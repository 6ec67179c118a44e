------------------------------ MODULE ArithMC ------------------------------
(* All calculations of types of eight bits, and those of boundary values of all types *)
EXTENDS Arith, Json, TLC
CONSTANTS Types
VARIABLES hist, pick
Around(x) == {Sub(x, One), x, Add(x, One)}
Halves(t) == Around(Pow2(IF t \in {"int8", "uint8"} THEN 4 ELSE IF t \in {"int16", "uint16"} THEN 8 ELSE IF t \in {"int32", "uint32"} THEN 16 ELSE 32))
Bound(t) == LET all == {Zero, One, Two, Big(3), Big(10), Big(-1), Big(-2), Big(-3), Big(-7)} \cup Halves(t) \cup {Neg(x) : x \in Halves(t)}
                       \cup {MinOf(t), MaxOf(t), Add(MinOf(t), One), Sub(MaxOf(t), One), DivTrunc(MaxOf(t), Two)[1], Add(DivTrunc(MaxOf(t), Two)[1], One), DivTrunc(MinOf(t), Two)[1]}
            IN  {x \in all : Fits(x, t)}
Fs == {"add", "sub", "mul", "div", "abs"}
Init == ArithInit /\ hist = << >> /\ pick = << >>
Pick == pick = << >> /\ \E t \in Types, f \in Fs : \E row \in (IF t \in {"int8", "uint8"} THEN BOOLEAN ELSE {FALSE}) : pick' = <<t, f, row>> /\ UNCHANGED <<calcs, hist>>
Row == LET t == pick[1] f == pick[2] IN \E a \in Lo8(t)..Hi8(t) :
         /\ (f = "abs" => a = 0 \/ a = Lo8(t) \/ a = -1)
         /\ LET r == Row8(f, t, a) IN CalculateRow(f, t, a, r) /\ hist' = <<[op |-> "row8", f |-> f, t |-> t, a |-> a, res |-> r]>>
Boundary == LET t == pick[1] f == pick[2] bound == Bound(t)
                bs == IF f = "abs" THEN <<Zero>> ELSE SetToSeq(bound)
            IN  \E a \in bound, named \in BOOLEAN :
                  /\ calcs' = 1
                  /\ hist' = [i \in DOMAIN bs |-> [op |-> "calc", f |-> f, t |-> t, named |-> named, a |-> a, b |-> bs[i], res |-> Calc(f, t, a, bs[i])]]
Next == Pick \/ (pick # << >> /\ hist = << >> /\ UNCHANGED pick /\ IF pick[3] THEN Row ELSE Boundary)
Spec == Init /\ [][Next]_<<calcs, hist, pick>>
Emit == hist # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> hist]))
\* the two definitions of the specification agree
Code(r) == CASE r.e = "over" -> 1001 [] r.e = "under" -> 1002 [] r.e = "zero" -> 1003 [] r.e = "noabs" -> 1004
             [] OTHER -> IF r.v = << >> THEN 0 ELSE r.v[1] * r.v[2]
Agree == hist # << >> /\ hist[1].op = "row8" /\ hist[1].a % 16 = 0 =>
           \A i \in 1..256 : hist[1].res[i] = Code(Calc(hist[1].f, hist[1].t, Big(hist[1].a), Big(Lo8(hist[1].t) + i - 1)))
=============================================================================
