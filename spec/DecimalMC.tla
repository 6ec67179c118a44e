----------------------------- MODULE DecimalMC -----------------------------
(* All pairs of boundary decimals through all calculations; all short texts *)
EXTENDS Decimal, Json, TLC
CONSTANTS Mode, TextLen, Scales
VARIABLES pick, ops

D(cs) == DigitsVal(cs)
Coefs == {Zero, One, Big(5), Big(-7), Big(10), Big(-15), Big(999), Pow10(17), Neg(Add(Pow10(17), One)), Mul(Big(5), Pow10(17)), Max18, Neg(Max18), RoundMax, Sub(Pow10(18), Big(5)), D(<<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56>>), D(<<51, 51, 51, 51, 51, 51, 51, 51, 51, 51>>)}
Chars == {45, 46, 48, 53, 120}
Init == DecimalInit /\ pick = << >> /\ ops = << >>
Unary(r) == <<[op |-> "show", r |-> r], [op |-> "negate", r |-> 3, a |-> r], [op |-> "quorem", q |-> 3, r |-> 4, a |-> r, o |-> Big(3)], [op |-> "divadd", r |-> 3, a |-> r, o |-> 3],
              [op |-> "show", r |-> 3]>>
Binary == <<[op |-> "cmp", a |-> 1, b |-> 2], [op |-> "format", a |-> 1, b |-> 2], [op |-> "calc", f |-> "add", r |-> 3, a |-> 1, b |-> 2], [op |-> "calc", f |-> "sub", r |-> 3, a |-> 1, b |-> 2],
            [op |-> "calc", f |-> "mul", r |-> 3, a |-> 1, b |-> 2], [op |-> "calc", f |-> "div", r |-> 4, a |-> 1, b |-> 2], [op |-> "calc", f |-> "mul", r |-> 4, a |-> 4, b |-> 2],
            [op |-> "adjust", a |-> 1, b |-> 2], [op |-> "normalize", r |-> 1]>>
Make_(r, v, s, n) == [op |-> "make", r |-> r, v |-> v, s |-> s, n |-> n]
NextPair ==
  IF pick = << >> THEN \E v \in Coefs, s \in Scales : pick' = <<v, s>> /\ UNCHANGED ops
  ELSE ops = << >> /\ UNCHANGED pick /\ \E w \in Coefs, s \in Scales, n \in BOOLEAN :
         ops' = <<Make_(1, pick[1], pick[2], n), Make_(2, w, s, TRUE)>> \o (IF w = One /\ s = 0 THEN Unary(1) ELSE << >>) \o Binary
NextText == ops = << >> /\ IF pick # << >> /\ pick[Len(pick)] = 0
            THEN ops' = <<[op |-> "parse", r |-> 1, text |-> SubSeq(pick, 1, Len(pick) - 1)], [op |-> "show", r |-> 1]>> /\ UNCHANGED pick
            ELSE /\ \/ Len(pick) < TextLen /\ \E ch \in Chars : pick' = Append(pick, ch)
                    \/ pick' = Append(pick, 0)
                 /\ UNCHANGED ops
Next == UNCHANGED reg /\ IF Mode = "pairs" THEN NextPair ELSE NextText
Spec == Init /\ [][Next]_<<reg, pick, ops>>
Emit == ops # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops]))

\* ---- laws of the specification itself, for all pairs
A == Settle(Dec(ops[1].v, ops[1].s, TRUE))
B == Settle(Dec(ops[2].v, ops[2].s, TRUE))
Val(S) == {r \in S : r.e = ""}
\* sums commute, sums and products that are not rounded are exact, and a rounded product or quotient is off by no more than half a unit of its last place
Close(r, num, den) == \* | r - num/den | <= 1/2 10^-s
  LET diff == Sub(Mul(r.v, den), Mul(num, T10(r.s))) IN NatCmp(NatMulSmall(Mag(diff), 2), Mag(den)) <= 0
Laws == ops # << >> /\ Mode = "pairs" =>
  /\ {r.e : r \in AddResults(A, B)} = {r.e : r \in AddResults(B, A)}
  /\ \A r \in Val(AddResults(A, B)), q \in Val(AddResults(B, A)) : SameValue(Dec(r.v, r.s, TRUE), Dec(q.v, q.s, TRUE))
  /\ \A r \in Val(MulResults(A, B)) : Close(r, Mul(A.v, B.v), T10(A.s + B.s)) /\ ValidV(r.v) /\ r.s \in 0..18
  /\ \A r \in Val(DivResults(A, B)) : Close(r, Mul(A.v, Mul(T10(B.s), Big(Sign(B.v)))), Mul(AbsBig(B.v), T10(A.s))) /\ ValidV(r.v) /\ r.s \in 0..18
=============================================================================
