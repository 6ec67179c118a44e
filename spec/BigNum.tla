------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers of any size, since TLC's are 32 bits.  A natural number is the *)
(* sequence of its digits in base 10000, least significant first, without  *)
(* leading zeros (so zero is << >>).  An integer is << >> for zero, else   *)
(* its sign (1 or -1) followed by its magnitude.  A rational is a pair     *)
(* <<numerator, denominator>> of integers, denominator positive, not       *)
(* necessarily in lowest terms.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

\* ---- naturals
RECURSIVE NatNorm(_)
NatNorm(a) == IF a = << >> \/ a[Len(a)] # 0 THEN a ELSE NatNorm(SubSeq(a, 1, Len(a) - 1))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NatCmpFrom(_, _, _)
NatCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NatCmpFrom(a, b, i - 1)
NatCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NatCmpFrom(a, b, Len(a))

RECURSIVE NatAddFrom(_, _, _, _)
NatAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN << >> ELSE <<carry>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + carry
       IN  <<t % Base>> \o NatAddFrom(a, b, i + 1, t \div Base)
NatAdd(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a ELSE NatAddFrom(a, b, 1, 0)

RECURSIVE NatSubFrom(_, _, _, _)
NatSubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN << >>
  ELSE LET t == a[i] - Limb(b, i) - borrow
       IN  IF t < 0 THEN <<t + Base>> \o NatSubFrom(a, b, i + 1, 1) ELSE <<t>> \o NatSubFrom(a, b, i + 1, 0)
NatSub(a, b) == NatNorm(NatSubFrom(a, b, 1, 0))          \* for a >= b

RECURSIVE NatMulSmallFrom(_, _, _, _)
NatMulSmallFrom(a, k, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN << >> ELSE <<carry>>)
  ELSE LET t == a[i] * k + carry IN <<t % Base>> \o NatMulSmallFrom(a, k, i + 1, t \div Base)
NatMulSmall(a, k) == IF k = 0 THEN << >> ELSE IF k = 1 THEN a ELSE NatMulSmallFrom(a, k, 1, 0)   \* 0 <= k < 100000

RECURSIVE NatMulFrom(_, _, _)
NatMulFrom(a, b, i) == IF i > Len(a) THEN << >>
                       ELSE LET hi == NatMulFrom(a, b, i + 1) IN NatAdd(NatMulSmall(b, a[i]), IF hi = << >> THEN << >> ELSE <<0>> \o hi)
NatMul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE IF Len(a) <= Len(b) THEN NatMulFrom(a, b, 1) ELSE NatMulFrom(b, a, 1)

\* the largest digit k in lo..hi with k * d <= r
RECURSIVE DigitIn(_, _, _, _)
DigitIn(r, d, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF NatCmp(NatMulSmall(d, mid), r) <= 0 THEN DigitIn(r, d, mid, hi) ELSE DigitIn(r, d, lo, mid - 1)

\* the estimate of the digit from the leading digits is off by at most a few
Digit(r, d) ==
  IF NatCmp(r, d) < 0 THEN 0
  ELSE LET n == Len(d)
           rt == Limb(r, n + 1) * Base + Limb(r, n)          \* < 10^8
           lo == rt \div (d[n] + 1)
           hi == (rt + 1) \div d[n]
       IN  DigitIn(r, d, IF lo > Base - 1 THEN Base - 1 ELSE lo, IF hi > Base - 1 THEN Base - 1 ELSE hi)

\* <<quotient, remainder>>, d # 0
RECURSIVE NatDivFrom(_, _, _, _, _)
NatDivFrom(a, d, i, q, r) ==
  IF i = 0 THEN <<NatNorm(q), r>>
  ELSE LET r2 == NatNorm(<<a[i]>> \o r)
           k == Digit(r2, d)
       IN  NatDivFrom(a, d, i - 1, <<k>> \o q, NatSub(r2, NatMulSmall(d, k)))
NatDivMod(a, d) == NatDivFrom(a, d, Len(a), << >>, << >>)

\* the same for a divisor 0 < k < 100000, remainder a number
NatDivSmall(a, k) ==
  LET r == FoldRight(LAMBDA t, acc : LET x == acc[2] * Base + t IN <<Append(acc[1], x \div k), x % k>>, a, << << >>, 0 >>)
  IN  <<NatNorm(Reverse(r[1])), r[2]>>

RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o NatOf(n \div Base)

RECURSIVE NatPow(_, _)
NatPow(b, e) == IF e = 0 THEN <<1>> ELSE IF e % 2 = 0 THEN LET h == NatPow(b, e \div 2) IN NatMul(h, h) ELSE NatMul(b, NatPow(b, e - 1))
NatEven(a) == a = << >> \/ a[1] % 2 = 0

\* number of decimal digits, 1 for zero
NatDigits(a) == IF a = << >> THEN 1
                ELSE LET t == a[Len(a)] IN 4 * (Len(a) - 1) + (IF t < 10 THEN 1 ELSE IF t < 100 THEN 2 ELSE IF t < 1000 THEN 3 ELSE 4)
\* the decimal digits as the codes of the characters, most significant first
Limb4(t) == <<48 + (t \div 1000), 48 + ((t \div 100) % 10), 48 + ((t \div 10) % 10), 48 + (t % 10)>>
NatChars(a) ==
  IF a = << >> THEN <<48>>
  ELSE LET all == FoldLeft(LAMBDA acc, t : Limb4(t) \o acc, << >>, a)
       IN  SubSeq(all, Len(all) - NatDigits(a) + 1, Len(all))

RECURSIVE NatGcd(_, _)
NatGcd(a, b) == IF b = << >> THEN a ELSE NatGcd(b, NatDivMod(a, b)[2])

\* ---- integers
Zero == << >>
One == <<1, 1>>
Sign(x) == IF x = << >> THEN 0 ELSE x[1]
Mag(x) == IF x = << >> THEN << >> ELSE Tail(x)
Mk(s, m) == IF m = << >> \/ s = 0 THEN << >> ELSE <<s>> \o m
Big(n) == IF n = 0 THEN << >> ELSE IF n > 0 THEN <<1>> \o NatOf(n) ELSE <<-1>> \o NatOf(-n)
Neg(x) == Mk(-Sign(x), Mag(x))
AbsBig(x) == Mk(1, Mag(x))
Cmp(x, y) ==
  IF Sign(x) # Sign(y) THEN (IF Sign(x) < Sign(y) THEN -1 ELSE 1)
  ELSE IF Sign(x) = 0 THEN 0
  ELSE Sign(x) * NatCmp(Mag(x), Mag(y))
Add(x, y) ==
  IF Sign(x) = 0 THEN y ELSE IF Sign(y) = 0 THEN x
  ELSE IF Sign(x) = Sign(y) THEN Mk(Sign(x), NatAdd(Mag(x), Mag(y)))
  ELSE LET c == NatCmp(Mag(x), Mag(y))
       IN  IF c = 0 THEN << >> ELSE IF c > 0 THEN Mk(Sign(x), NatSub(Mag(x), Mag(y))) ELSE Mk(Sign(y), NatSub(Mag(y), Mag(x)))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(Sign(x) * Sign(y), NatMul(Mag(x), Mag(y)))
Leq(x, y) == Cmp(x, y) <= 0
Lss(x, y) == Cmp(x, y) < 0
InRange(x, lo, hi) == Leq(lo, x) /\ Leq(x, hi)
Pow2(n) == Mk(1, NatPow(<<2>>, n))
Pow10(n) == Mk(1, NatPow(<<10>>, n))
Two == <<1, 2>>
Ten == <<1, 10>>

\* the quotient rounded to the nearest integer, halves away from zero; d # 0
DivRound(n, d) ==
  LET qr == NatDivMod(Mag(n), Mag(d))
      up == NatCmp(NatMulSmall(qr[2], 2), Mag(d)) >= 0
  IN  Mk(Sign(n) * Sign(d), IF up THEN NatAdd(qr[1], <<1>>) ELSE qr[1])
\* the quotient rounded towards zero, and the remainder that goes with it (which has the sign of n)
DivTrunc(n, d) ==
  LET qr == NatDivMod(Mag(n), Mag(d)) IN <<Mk(Sign(n) * Sign(d), qr[1]), Mk(Sign(n), qr[2])>>

\* the ranges of the integer types (constants, which TLC evaluates once)
P7 == Pow2(7)
P8 == Pow2(8)
P15 == Pow2(15)
P16 == Pow2(16)
P31 == Pow2(31)
P32 == Pow2(32)
P63 == Pow2(63)
P64 == Pow2(64)
N7 == Neg(P7)
N15 == Neg(P15)
N31 == Neg(P31)
N63 == Neg(P63)
M7 == Sub(P7, One)
M8 == Sub(P8, One)
M15 == Sub(P15, One)
M16 == Sub(P16, One)
M31 == Sub(P31, One)
M32 == Sub(P32, One)
M63 == Sub(P63, One)
M64 == Sub(P64, One)
MinOf(t) == CASE t = "int8" -> N7 [] t = "int16" -> N15 [] t = "int32" -> N31 [] t \in {"int64", "int"} -> N63 [] OTHER -> Zero
MaxOf(t) == CASE t = "int8" -> M7 [] t = "int16" -> M15 [] t = "int32" -> M31 [] t \in {"int64", "int"} -> M63
              [] t = "uint8" -> M8 [] t = "uint16" -> M16 [] t = "uint32" -> M32 [] t \in {"uint64", "uint", "uintptr"} -> M64
SignedTypes == {"int", "int8", "int16", "int32", "int64"}
UnsignedTypes == {"uint", "uint8", "uint16", "uint32", "uint64"}
IntTypes == SignedTypes \cup UnsignedTypes
Fits(x, t) == InRange(x, MinOf(t), MaxOf(t))

\* ---- rationals <<n, d>>, d > 0
RatCmp(a, b) == Cmp(Mul(a[1], b[2]), Mul(b[1], a[2]))
RatEq(a, b) == a = b \/ RatCmp(a, b) = 0
RatAdd(a, b) == IF a[2] = b[2] THEN <<Add(a[1], b[1]), a[2]>> ELSE <<Add(Mul(a[1], b[2]), Mul(b[1], a[2])), Mul(a[2], b[2])>>
RatOf(x) == <<x, One>>
=============================================================================
