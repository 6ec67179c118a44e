-------------------------------- MODULE Agg --------------------------------
(***************************************************************************)
(* Numeric reductions and orderings of streams: sum, average, absolute     *)
(* value, minimum, maximum, count, the sorts.  A call takes the elements   *)
(* of a source and the error it ends with, and yields the elements of the  *)
(* resulting iterator, the error it ends with, and the elements of the     *)
(* source as they are afterwards.                                          *)
(*                                                                         *)
(* Values: of the integer types and big.Int, an integer of BigNum; of the  *)
(* floating point types, big.Float and big.Rat, a rational of BigNum; of   *)
(* strings, the sequence of its bytes; of the complex types, a pair of     *)
(* integers of BigNum.                                                     *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

VARIABLE calls   \* number of calls made
RatTypes == {"float32", "float64", "bigfloat", "bigrat"}
ComplexTypes == {"complex64", "complex128"}

RECURSIVE StrCmp(_, _, _)
StrCmp(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE StrCmp(a, b, i + 1)
Norm2(z) == Add(Mul(z[1], z[1]), Mul(z[2], z[2]))
CmpOf(t, a, b) == IF t \in RatTypes THEN RatCmp(a, b) ELSE IF t = "string" THEN StrCmp(a, b, 1)
                  ELSE IF t \in ComplexTypes THEN Cmp(Norm2(a), Norm2(b)) ELSE Cmp(a, b)
AddOf(t, a, b) == IF t \in RatTypes THEN RatAdd(a, b) ELSE IF t \in ComplexTypes THEN <<Add(a[1], b[1]), Add(a[2], b[2])>> ELSE Add(a, b)
ZeroOf(t) == IF t \in RatTypes THEN <<Zero, One>> ELSE Zero
EqOf(t, a, b) == IF t \in RatTypes THEN RatEq(a, b) ELSE a = b

SumOf(t, in) == FoldLeft(LAMBDA acc, v : AddOf(t, acc, v), ZeroOf(t), in)
\* index of the first element with which the running sum leaves the range of the type, 0 if there is none
SumLeaves(t, in) ==
  IF t \notin IntTypes THEN 0
  ELSE FoldLeft(LAMBDA acc, v : IF acc.bad # 0 THEN acc
                                ELSE LET s == Add(acc.s, v) IN [s |-> s, i |-> acc.i + 1, bad |-> IF Fits(s, t) THEN 0 ELSE acc.i + 1],
                [s |-> Zero, i |-> 0, bad |-> 0], in).bad

Is1(res, t, e) == Len(res.vs) = 1 /\ EqOf(t, res.vs[1], e) /\ res.e = "EOI"
IsErr(res, e) == res.vs = << >> /\ res.e = e

Extreme(res, t, in, sign) ==
  Len(res.vs) = 1 /\ res.e = "EOI" /\ (\E i \in DOMAIN in : EqOf(t, in[i], res.vs[1])) /\ \A i \in DOMAIN in : sign * CmpOf(t, res.vs[1], in[i]) >= 0

Rearranged(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})
Ascending(t, vs) == \A i \in 1..(Len(vs) - 1) : CmpOf(t, vs[i], vs[i + 1]) <= 0
AscendingBy(m, vs) == \A i \in 1..(Len(vs) - 1) : (Mag(vs[i]) \o <<0>>)[1] % m <= (Mag(vs[i + 1]) \o <<0>>)[1] % m

\* the average: rounded to the nearest integer with halves away from zero, exact, or rounded to the 53 bits of a float
AvgOk(t, in, avg) ==
  LET sum == SumOf(t, in)
      n == Big(Len(in))
  IN  CASE t \in IntTypes \cup {"bigint"} -> avg = DivRound(sum, n)
        [] t = "bigrat" -> RatEq(<<Mul(avg[1], n), avg[2]>>, sum)
        [] t = "bigfloat" -> \* |avg * n - sum| * 2^52 <= |sum|
             LET l == <<Mul(avg[1], n), avg[2]>>
                 diff == RatAdd(l, <<Neg(sum[1]), sum[2]>>)
             IN  RatCmp(<<Mul(AbsBig(diff[1]), Pow2(52)), diff[2]>>, <<AbsBig(sum[1]), sum[2]>>) <= 0

NoAbs(t, v) == t \in SignedTypes /\ v = MinOf(t)
AbsOf(t, v) == IF t \in RatTypes THEN <<AbsBig(v[1]), v[2]>> ELSE AbsBig(v)
FirstBad(t, in) == LET I == {i \in DOMAIN in : NoAbs(t, in[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Allowed(f, t, in, end, res) ==
  /\ res.after = in                                         \* the elements of the source are left as they were
  /\ IF f = "abs"
     THEN LET b == FirstBad(t, in)
              n == IF b = 0 THEN Len(in) ELSE b - 1
          IN  /\ Len(res.vs) = n /\ \A i \in 1..n : EqOf(t, res.vs[i], AbsOf(t, in[i]))
              /\ res.e = (IF b = 0 THEN end ELSE "err")
     ELSE IF f = "avg" /\ SumLeaves(t, in) # 0 THEN IsErr(res, "err")
     ELSE IF end # "EOI" THEN IsErr(res, end)
     ELSE CASE f = "count" -> res.vs = <<Big(Len(in))>> /\ res.e = "EOI"
            [] f = "sort" -> Rearranged(in, res.vs) /\ Ascending(t, res.vs) /\ res.e = "EOI"
            [] f = "sortby" -> Rearranged(in, res.vs) /\ AscendingBy(7, res.vs) /\ res.e = "EOI"
            [] OTHER ->
                 IF in = << >> THEN IsErr(res, "EOI")
                 ELSE CASE f = "sum" -> SumLeaves(t, in) = 0 => Is1(res, t, SumOf(t, in))     \* a sum out of range is not specified
                        [] f = "avg" -> Len(res.vs) = 1 /\ res.e = "EOI" /\ AvgOk(t, in, res.vs[1])
                        [] f = "min" -> Extreme(res, t, in, -1)
                        [] f = "max" -> Extreme(res, t, in, 1)

AggInit == calls = 0
Call_(f, t, in, end, res) == Allowed(f, t, in, end, res) /\ calls' = calls + 1
=============================================================================
