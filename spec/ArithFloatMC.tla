---------------------------- MODULE ArithFloatMC ----------------------------
(* All quotients and absolute values of boundary floats *)
EXTENDS Arith, Json, TLC
CONSTANTS Types, Precs
VARIABLES ops, done
F(k, v, neg, p) == [k |-> k, v |-> v, neg |-> neg, p |-> p]
Z == <<Zero, One>>
Neg2(x) == [x EXCEPT !.neg = ~@, !.v = <<Neg(@[1]), @[2]>>]
Pos(t) == {<<One, One>>, <<Big(3), One>>, <<Ten, One>>, <<Sub(MantOf(t), One), One>>, <<Add(Pow2(10), One), Pow2(10)>>,
           <<Sub(MantOf(t), One), MantOf(t)>>, <<One, Pow2(-MinExp(t))>>, <<Big(3), Pow2(-MinExp(t))>>, <<Mul(Sub(MantOf(t), One), Pow2(MaxExp(t) - Mant(t))), One>>}
PosBig(p) == {<<One, One>>, <<Big(3), One>>, <<Ten, One>>, <<Sub(Pow2(p), One), One>>, <<Add(Pow2(10), One), Pow2(10)>>}
Nums(t, p) == LET s == {F("num", r, FALSE, p) : r \in IF t = "bigfloat" THEN PosBig(p) ELSE Pos(t)} \cup {F("num", Z, FALSE, p), F("inf", Z, FALSE, p)}
              IN  s \cup {Neg2(x) : x \in s}
Values(t) == IF t = "bigfloat" THEN UNION {Nums(t, p) : p \in Precs} ELSE Nums(t, 0) \cup {F("nan", Z, FALSE, 0)}
Div(t, al, q0, viaops, a, b) == [op |-> "fdiv", t |-> t, alias |-> al, q0 |-> q0, ops |-> viaops, a |-> a, b |-> b]
Ways(t, a, b) == IF t # "bigfloat" THEN <<Div(t, "new", 0, FALSE, a, b), Div(t, "dividend", 0, FALSE, a, b), Div(t, "divisor", 0, FALSE, a, b)>>
                 ELSE <<Div(t, "nil", 0, FALSE, a, b), Div(t, "new", 0, TRUE, a, b), Div(t, "new", 30, FALSE, a, b), Div(t, "dividend", 0, FALSE, a, b), Div(t, "divisor", 0, TRUE, a, b), Div(t, "nil", 0, TRUE, a, b)>>
\* where both operands are one number
Cases(t, a) == LET vs == SetToSeq(Values(t)) IN <<[op |-> "fabs", t |-> t, a |-> a]>> \o FlattenSeq([i \in DOMAIN vs |-> Ways(t, a, vs[i])])
Init == ArithInit /\ ops = << >> /\ done = << >>
Next == /\ UNCHANGED calcs
        /\ IF done = << >> THEN \E t \in Types : done' = <<t>> /\ UNCHANGED ops
           ELSE ops = << >> /\ UNCHANGED done /\ \E a \in Values(done[1]) : ops' = Cases(done[1], a)
Spec == Init /\ [][Next]_<<calcs, ops, done>>
Emit == ops # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops]))
\* ---- the specification allows one quotient, or two if the exact one is half way between them: of the two binary
\* fractions around the exact quotient at least one, and none that is one further
Around2(x, p, lo) == LET e0 == BitLen(Mag(x[1])) - BitLen(Mag(x[2])) - p
                         e == IF e0 < lo THEN lo ELSE e0
                         y == RMul(x, Two2(-e))
                         q == DivTrunc(y[1], y[2])[1]
                     IN  [i \in 1..4 |-> RMul(<<Add(q, Big(i - 2)), One>>, Two2(e))]
Quo(i) == LET o == ops[i] IN RatDiv(o.a.v, o.b.v)
OneQuotient == ops # << >> =>
  \A i \in DOMAIN ops : LET o == ops[i] IN o.op = "fdiv" /\ o.alias = "new" /\ o.a.k = "num" /\ o.b.k = "num" /\ ~IsZ(o.a) /\ ~IsZ(o.b) /\ ~o.a.neg /\ ~o.b.neg /\ Len(o.a.v[1]) + Len(o.b.v[1]) + Len(o.a.v[2]) + Len(o.b.v[2]) < 30 =>
    LET p == IF o.t = "bigfloat" THEN IF o.a.p > o.b.p THEN o.a.p ELSE o.b.p ELSE Mant(o.t)
        x == Quo(i)
        rs == SelectSeq(Around2(x, p, LoOf(o.t)), LAMBDA r : Sign(r[1]) >= 0 /\ RoundsTo(x, r, p, LoOf(o.t)))
    IN  Len(rs) \in {1, 2}
=============================================================================
