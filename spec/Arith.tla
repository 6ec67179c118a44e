------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Checked arithmetic: the result is exact (a quotient is rounded to the   *)
(* nearest integer, halves away from zero), or there is an error that      *)
(* tells in which direction the result leaves the range of the type.       *)
(*                                                                         *)
(* Result: [e, v], e is "" or "over", "under", "zero" (division by zero),  *)
(* "noabs" (no absolute value); v is << >> if there is an error.           *)
(***************************************************************************)
EXTENDS Binary

VARIABLE calcs      \* number of calculations, the functions have no state
ArithInit == calcs = 0

Exact(f, a, b) ==
  CASE f = "add" -> Add(a, b) [] f = "sub" -> Sub(a, b) [] f = "mul" -> Mul(a, b) [] f = "div" -> DivRound(a, b) [] f = "abs" -> AbsBig(a)
Bounded(t) == t \in IntTypes
Calc(f, t, a, b) ==
  IF f = "div" /\ b = Zero THEN [e |-> "zero", v |-> << >>]
  ELSE LET x == Exact(f, a, b)
       IN  IF ~Bounded(t) \/ Fits(x, t) THEN [e |-> "", v |-> x]
           ELSE [e |-> IF f = "abs" THEN "noabs" ELSE IF Lss(MaxOf(t), x) THEN "over" ELSE "under", v |-> << >>]
Calculate(f, t, a, b, res) == res = Calc(f, t, a, b) /\ calcs' = calcs + 1

\* division of rationals
RatZero(a) == a[1] = Zero
RatDiv(a, b) == LET s == Sign(b[1]) IN <<Mul(Mul(a[1], b[2]), Big(s)), Mul(a[2], AbsBig(b[1]))>>

\* Division of references to big numbers, where the quotient is stored in a number of its own ("new", or "nil" for one that
\* the function is to allocate), or in the number that is the dividend or the divisor. The operands stay as they are,
\* except the one the quotient is stored in. Result [e, v, a, b]: the quotient, and the operands afterwards
BigDivide(t, alias, a, b, res) ==
  /\ calcs' = calcs + 1
  /\ IF (IF t = "bigint" THEN b = Zero ELSE RatZero(b))
     THEN res.e = "zero" /\ res.a = a /\ res.b = b
     ELSE LET q == IF t = "bigint" THEN DivRound(a, b) ELSE RatDiv(a, b)
              Same(x, y) == IF t = "bigint" THEN x = y ELSE RatEq(x, y)
          IN  /\ res.e = "" /\ Same(res.v, q)
              /\ Same(res.a, IF alias = "dividend" THEN q ELSE a)
              /\ Same(res.b, IF alias = "divisor" THEN q ELSE b)

\* ---- division and absolute value of floats: [k, v, neg, p], k is "num" (the rational v), "inf" or "nan", neg its sign (also
\* of a zero), p the precision of a big float. A quotient is rounded once, to the nearest
LoOf(t) == IF t = "bigfloat" THEN -1000000 ELSE MinExp(t)
Overflows(t, x) == t # "bigfloat" /\ ~Lss(AbsBig(x[1]), Mul(x[2], Sub(TopOf(t), Pow2(MaxExp(t) - Mant(t) - 1))))
\* the quotient r of a and b
IsZ(x) == x.k = "num" /\ x.v[1] = Zero
NoQuo(a, b) == a.k = "nan" \/ b.k = "nan" \/ (a.k = "inf" /\ b.k = "inf") \/ (IsZ(a) /\ IsZ(b))
FloatQuo(t, a, b, p, r) ==
  LET neg == a.neg # b.neg
  IN  IF NoQuo(a, b) THEN r.k = "nan"
      ELSE /\ r.neg = neg
           /\ IF a.k = "inf" \/ IsZ(b) THEN r.k = "inf"
              ELSE IF b.k = "inf" \/ IsZ(a) THEN r.k = "num" /\ r.v[1] = Zero
              ELSE LET x == RatDiv(a.v, b.v)
                   IN  IF Overflows(t, x) THEN r.k = "inf"
                       ELSE r.k = "num" /\ (r.v[1] # Zero => Sign(r.v[1]) = Sign(x[1])) /\ RoundsTo(x, r.v, p, LoOf(t))
SameFloat(x, y) == x.k = y.k /\ (x.k = "nan" \/ (x.neg = y.neg /\ x.p = y.p /\ (x.k = "num" => RatEq(x.v, y.v))))
\* the quotient is stored in a number of its own ("new", of precision q0 if it is not 0), one that the function is to allocate ("nil"),
\* or an operand. A big float can not be NaN: this is an error, which leaves everything as it was
FloatDivide(t, alias, q0, a, b, res) ==
  /\ calcs' = calcs + 1
  /\ LET most == IF a.p > b.p THEN a.p ELSE b.p
         p == IF t # "bigfloat" THEN Mant(t)
              ELSE CASE alias = "nil" -> res.v.p [] alias = "new" -> (IF q0 = 0 THEN most ELSE q0) [] alias = "dividend" -> a.p [] alias = "divisor" -> b.p
     IN  IF t = "bigfloat" /\ NoQuo(a, b)
         THEN res.e # "" /\ SameFloat(res.a, a) /\ SameFloat(res.b, b)
         ELSE /\ res.e = ""
              /\ FloatQuo(t, a, b, p, res.v)
              /\ t = "bigfloat" => res.v.p = p /\ p >= (IF alias = "nil" THEN 53 ELSE 1)
              /\ SameFloat(res.a, IF alias = "dividend" THEN res.v ELSE a)
              /\ SameFloat(res.b, IF alias = "divisor" THEN res.v ELSE b)
\* stored in the number itself
Absolute(t, a, res) ==
  /\ calcs' = calcs + 1
  /\ res.e = ""
  /\ SameFloat(res.v, [a EXCEPT !.neg = FALSE, !.v = IF a.k = "num" THEN RAbs(@) ELSE @])

\* ---- order: integers, rationals (floats), strings of bytes, complex numbers <<re, im>> by magnitude
RECURSIVE StrCmp(_, _)
StrCmp(a, b) == IF a = << >> THEN (IF b = << >> THEN 0 ELSE -1) ELSE IF b = << >> THEN 1
                ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE StrCmp(Tail(a), Tail(b))
IntCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
OrderOf(kind, a, b) == CASE kind = "int" -> Cmp(a, b) [] kind = "rat" -> RatCmp(a, b) [] kind = "str" -> StrCmp(a, b)
                    [] kind = "complex" -> IntCmp(a[1] * a[1] + a[2] * a[2], b[1] * b[1] + b[2] * b[2])
Compare(kind, f, a, b, res) ==
  /\ calcs' = calcs + 1
  /\ LET c == OrderOf(kind, a, b)
     IN  CASE f = "cmp" -> res = c
           [] f = "min" -> /\ OrderOf(kind, res, a) <= 0 /\ OrderOf(kind, res, b) <= 0
                           /\ OrderOf(kind, res, a) = 0 \/ OrderOf(kind, res, b) = 0
           [] f = "max" -> /\ OrderOf(kind, res, a) >= 0 /\ OrderOf(kind, res, b) >= 0
                           /\ OrderOf(kind, res, a) = 0 \/ OrderOf(kind, res, b) = 0

\* ---- types of eight bits: the results for all second operands at once, as numbers; an error is a number beyond 1000
Lo8(t) == IF t = "int8" THEN -128 ELSE 0
Hi8(t) == IF t = "int8" THEN 127 ELSE 255
AbsI(n) == IF n < 0 THEN -n ELSE n
DivI(n, d) == LET q == (2 * AbsI(n) + AbsI(d)) \div (2 * AbsI(d)) IN IF (n < 0) # (d < 0) THEN -q ELSE q
Calc8(f, t, a, b) ==
  IF f = "div" /\ b = 0 THEN 1003
  ELSE LET x == CASE f = "add" -> a + b [] f = "sub" -> a - b [] f = "mul" -> a * b [] f = "div" -> DivI(a, b) [] f = "abs" -> AbsI(a)
       IN  IF x > Hi8(t) THEN (IF f = "abs" THEN 1004 ELSE 1001) ELSE IF x < Lo8(t) THEN 1002 ELSE x
Row8(f, t, a) == [i \in 1..256 |-> Calc8(f, t, a, Lo8(t) + i - 1)]
CalculateRow(f, t, a, res) == res = Row8(f, t, a) /\ calcs' = calcs + 1
=============================================================================
