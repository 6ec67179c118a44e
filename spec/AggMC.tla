------------------------------- MODULE AggMC -------------------------------
(* All small sequences of boundary values, with the results they must have *)
EXTENDS Agg, Json, TLC
CONSTANTS MaxLen, Types
VARIABLES hist
Bound(t) == IF t \in SignedTypes THEN {MinOf(t), Add(MinOf(t), One), Big(-2), Big(-1), Zero, One, Big(2), MaxOf(t)}
            ELSE IF t = "bigint" THEN {Big(-3), Big(-1), Zero, One, Big(2), P64} ELSE {Zero, One, Two, Big(3), Sub(MaxOf(t), One), MaxOf(t)}
Fs(t) == {"sum", "avg", "min", "max", "count", "sort"} \cup (IF t \in UnsignedTypes THEN {} ELSE {"abs"})
Err(in, e) == [vs |-> << >>, e |-> e, after |-> in]
Val(in, v) == [vs |-> <<v>>, e |-> "EOI", after |-> in]
Best(in, sgn) == in[CHOOSE i \in DOMAIN in : \A j \in DOMAIN in : sgn * Cmp(in[i], in[j]) >= 0]
Result(f, t, in, end) ==
  IF f = "abs" THEN LET b == FirstBad(t, in) n == IF b = 0 THEN Len(in) ELSE b - 1
                    IN [vs |-> [i \in 1..n |-> AbsBig(in[i])], e |-> IF b = 0 THEN end ELSE "err", after |-> in]
  ELSE IF f = "avg" /\ SumLeaves(t, in) # 0 THEN Err(in, "err")
  ELSE IF end # "EOI" THEN Err(in, end)
  ELSE IF f = "count" THEN Val(in, Big(Len(in)))
  ELSE IF f = "sort" THEN [vs |-> SortSeq(in, Lss), e |-> "EOI", after |-> in]
  ELSE IF in = << >> THEN Err(in, "EOI")
  ELSE CASE f = "sum" -> Val(in, SumOf(t, in)) [] f = "avg" -> Val(in, DivRound(SumOf(t, in), Big(Len(in))))
         [] f = "min" -> Val(in, Best(in, -1)) [] f = "max" -> Val(in, Best(in, 1))
Init == AggInit /\ hist = << >>
Next == /\ hist = << >>
        /\ \E t \in Types : \E f \in Fs(t), n \in 0..MaxLen, end \in {"EOI", "e1"} : \E in \in [1..n -> Bound(t)] :
             /\ ~(f = "sum" /\ SumLeaves(t, in) # 0)
             /\ LET r == Result(f, t, in, end) IN Call_(f, t, in, end, r) /\ hist' = <<[op |-> "agg", f |-> f, t |-> t, in |-> in, end |-> end, res |-> r]>>
Spec == Init /\ [][Next]_<<calls, hist>>
Emit == hist # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> hist]))
\* laws that follow: the average lies between the extremes; minimum and maximum are the ends of the sorted sequence
Laws == hist # << >> =>
  LET o == hist[1] IN (o.f = "avg" /\ Len(o.res.vs) = 1) => Leq(Best(o.in, -1), o.res.vs[1]) /\ Leq(o.res.vs[1], Best(o.in, 1))
=============================================================================
