------------------------------ MODULE BigNumMC ------------------------------
(* The arithmetic of BigNum agrees with that of TLC where the latter applies, and satisfies the laws where it does not *)
EXTENDS BigNum, TLC
VARIABLES x, y
S == {0, 1, 2, 3, 5, 7, 9, 10, 49, 50, 99, 100, 127, 128, 255, 256, 999, 1000, 4999, 5000, 9999, 10000, 10001, 12345, 32767, 32768, 40000, 46340}
I == S \cup {-s : s \in S}
Init == x \in I /\ y = 0
Next == y = 0 /\ y' \in I \ {0} /\ UNCHANGED x
AbsI(n) == IF n < 0 THEN -n ELSE n
Agrees ==
  /\ Add(Big(x), Big(y)) = Big(x + y)
  /\ Sub(Big(x), Big(y)) = Big(x - y)
  /\ Mul(Big(x), Big(y)) = Big(x * y)
  /\ Cmp(Big(x), Big(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
  /\ y # 0 => LET q == AbsI(x) \div AbsI(y) r == AbsI(x) % AbsI(y) s == IF (x < 0) = (y < 0) THEN 1 ELSE -1
              IN  /\ DivRound(Big(x), Big(y)) = Big(s * (q + (IF 2 * r >= AbsI(y) THEN 1 ELSE 0)))
                  /\ DivTrunc(Big(x), Big(y)) = <<Big(s * q), Big((IF x < 0 THEN -1 ELSE 1) * r)>>
\* large: a = x * 10^20 + y, b = y * 10^9 + x
A == Add(Mul(Big(x), Pow10(20)), Big(y))
B == Add(Mul(Big(y), Pow10(9)), Big(x))
Laws ==
  /\ Sub(Add(A, B), B) = A
  /\ Mul(A, B) = Mul(B, A)
  /\ Mul(A, Add(B, One)) = Add(Mul(A, B), A)
  /\ B # Zero => LET qr == DivTrunc(A, B) IN /\ Add(Mul(qr[1], B), qr[2]) = A /\ NatCmp(Mag(qr[2]), Mag(B)) < 0
  /\ B # Zero => LET q == DivRound(A, B) d == Sub(A, Mul(q, B)) IN NatCmp(NatMulSmall(Mag(d), 2), Mag(B)) <= 0
  /\ \A k \in {1, 2, 3, 9999, 10000, 65536} : NatDivSmall(Mag(A), k) = LET q == NatDivMod(Mag(A), NatOf(k)) IN <<q[1], IF q[2] = << >> THEN 0 ELSE Limb(q[2], 1) + Base * Limb(q[2], 2)>>
  /\ Fits(Big(x), "int8") = (x >= -128 /\ x <= 127)
  /\ Len(NatChars(Mag(A))) = NatDigits(Mag(A))
Spec == Init /\ [][Next]_<<x, y>>
=============================================================================
