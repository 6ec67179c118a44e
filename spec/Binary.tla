------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* Binary fractions: which rationals the types float32 and float64, and    *)
(* big floats of a precision, represent; and what rounding to them means.  *)
(***************************************************************************)
EXTENDS BigNum

\* ---- powers of two
RECURSIVE SmallBits(_)
SmallBits(n) == IF n = 0 THEN 0 ELSE 1 + SmallBits(n \div 2)
RECURSIVE Low2(_)         \* the largest power of two that divides n > 0
Low2(n) == IF n % 2 = 1 THEN 1 ELSE 2 * Low2(n \div 2)
RECURSIVE Trim2(_, _)     \* <<odd part, exponent>> of a natural that is not zero
Trim2(a, e) == IF a[1] % 2 = 1 THEN <<a, e>>
               ELSE LET q == NatDivSmall(a, 65536)
                    IN  IF q[2] = 0 THEN Trim2(q[1], e + 16) ELSE Trim2(NatDivSmall(a, Low2(q[2]))[1], e + SmallBits(Low2(q[2])) - 1)
RECURSIVE BitLen(_)
BitLen(a) == IF Len(a) <= 2 THEN SmallBits(Limb(a, 2) * Base + Limb(a, 1)) ELSE 16 + BitLen(NatDivSmall(a, 65536)[1])
Two2(e) == IF e >= 0 THEN <<Pow2(e), One>> ELSE <<One, Pow2(-e)>>
RSub(a, b) == RatAdd(a, <<Neg(b[1]), b[2]>>)
RAbs(a) == <<AbsBig(a[1]), a[2]>>
RMul(a, b) == <<Mul(a[1], b[1]), Mul(a[2], b[2])>>
RLeq(a, b) == RatCmp(a, b) <= 0

\* the form odd * 2^x of a rational, if it has one (d is a power of two once reduced: here d is reduced only by powers of two)
Dyadic(r) == IF r[1] = Zero THEN [ok |-> TRUE, odd |-> << >>, x |-> 0]
             ELSE LET n == Trim2(Mag(r[1]), 0)
                      d == Trim2(Mag(r[2]), 0)
                      q == IF d[1] = <<1>> THEN <<n[1], << >> >> ELSE NatDivMod(n[1], d[1])
                  IN  IF q[2] = << >> THEN [ok |-> TRUE, odd |-> q[1], x |-> n[2] - d[2]] ELSE [ok |-> FALSE, odd |-> << >>, x |-> 0]

Mant(t) == IF t = "float32" THEN 24 ELSE 53
MinExp(t) == IF t = "float32" THEN -149 ELSE -1074
MaxExp(t) == IF t = "float32" THEN 128 ELSE 1024
T24 == Pow2(24)
T53 == Pow2(53)
T128 == Pow2(128)
T1024 == Pow2(1024)
TopOf(t) == IF t = "float32" THEN T128 ELSE T1024
MantOf(t) == IF t = "float32" THEN T24 ELSE T53
MaxFloat32 == Mul(Sub(T24, One), Pow2(104))
\* a float type has the value exactly
Represents(t, r) == LET d == Dyadic(r)
                    IN  d.ok /\ NatCmp(d.odd, Mag(MantOf(t))) < 0 /\ (d.odd = << >> \/ d.x >= MinExp(t)) /\ Lss(AbsBig(r[1]), Mul(TopOf(t), r[2]))
\* a value is within half a unit of the last place of the dyadic value r with p bits, exponents at least lo
HalfUnit(r, p, lo) == LET d == Dyadic(r)
                          e == BitLen(d.odd) + d.x - p
                      IN  Two2((IF e < lo THEN lo ELSE e) - 1)
Near(t, r, p, lo) == RLeq(RAbs(RSub(t, r)), HalfUnit(r, p, lo))
\* r is v rounded to the nearest binary fraction of p bits, with exponents of at least lo; either one if v is half way
Bits(r, p, lo) == LET d == Dyadic(r) IN d.ok /\ BitLen(d.odd) <= p /\ (d.odd = << >> \/ d.x >= lo)
RoundsTo(v, r, p, lo) == IF Bits(v, p, lo) THEN RatEq(v, r) ELSE Bits(r, p, lo) /\ (IF r[1] = Zero THEN RLeq(RAbs(v), Two2(lo - 1)) ELSE Near(v, r, p, lo))
=============================================================================
