-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Conversions between the ten integer types, two float types, big.Int,    *)
(* big.Float, big.Rat and string: the result is the same value, or there   *)
(* is an error.  The only exceptions are those where the documentation     *)
(* accepts rounding: float64 to float32 within its range, and big.Float as *)
(* the target of decimal strings and ratios.                               *)
(*                                                                         *)
(* A value is [k, v, s, p]: k is "num" (the rational v), "inf", "-inf",    *)
(* "nan", or "text" (the characters s); p is the precision of a big.Float. *)
(***************************************************************************)
EXTENDS Binary

VARIABLE convs      \* number of conversions, the functions have no state
ConvInit == convs = 0

Floats == {"float32", "float64"}
Bigs == {"bigint", "bigfloat", "bigrat"}
Types == IntTypes \cup Floats \cup Bigs \cup {"string"}

RZero == <<Zero, One>>
Num(r) == [k |-> "num", v |-> r, s |-> << >>, p |-> 0]
Special(k) == [k |-> k, v |-> RZero, s |-> << >>, p |-> 0]
Text(s) == [k |-> "text", v |-> RZero, s |-> s, p |-> 0]

T52 == Pow2(52)
Close(r, v) == RLeq(RMul(RAbs(RSub(r, v)), <<T52, One>>), RAbs(v))     \* relative error of at most 2^-52

\* ---- text: optional sign, digits, fraction, exponent; or a ratio
RECURSIVE LimbsOf(_)
SmallOf(cs) == FoldLeft(LAMBDA acc, ch : 10 * acc + (ch - 48), 0, cs)
LimbsOf(cs) == IF cs = << >> THEN << >>
               ELSE LET n == Len(cs) IN IF n <= 4 THEN <<SmallOf(cs)>> ELSE <<SmallOf(SubSeq(cs, n - 3, n))>> \o LimbsOf(SubSeq(cs, 1, n - 4))
NatOfChars(cs) == NatNorm(LimbsOf(cs))
IsDigits(cs) == cs # << >> /\ \A i \in DOMAIN cs : cs[i] \in 48..57
Signed(cs) == cs # << >> /\ cs[1] \in {43, 45}
Unsign(cs) == IF Signed(cs) THEN Tail(cs) ELSE cs
SignOf(cs) == IF cs # << >> /\ cs[1] = 45 THEN -1 ELSE 1
At(cs, S) == LET is == {i \in DOMAIN cs : cs[i] \in S} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
IntText(cs) == IsDigits(Unsign(cs))
IntVal(cs) == Mk(SignOf(cs), NatOfChars(Unsign(cs)))
\* [ok, v]
DecText(cs) ==
  LET u == Unsign(cs)
      e == At(u, {69, 101})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      xs == IF e = 0 THEN <<48>> ELSE SubSeq(u, e + 1, Len(u))
      p == At(m, {46})
      is == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      fs == IF p = 0 THEN << >> ELSE SubSeq(m, p + 1, Len(m))
  IN  IF ~IsDigits(is \o fs) \/ ~IntText(xs) \/ Len(xs) > 5 THEN [ok |-> FALSE, v |-> RZero]
      ELSE LET n == Mk(SignOf(cs), NatOfChars(is \o fs))
               x == SignOf(xs) * SmallOf(Unsign(xs)) - Len(fs)
           IN  [ok |-> TRUE, v |-> IF x >= 0 THEN <<Mul(n, Pow10(x)), One>> ELSE <<n, Pow10(-x)>>]
RatioText(cs) == LET p == At(cs, {47}) IN p > 0 /\ IntText(SubSeq(cs, 1, p - 1)) /\ IsDigits(SubSeq(cs, p + 1, Len(cs))) /\ NatOfChars(SubSeq(cs, p + 1, Len(cs))) # << >>
RatioVal(cs) == LET p == At(cs, {47}) IN <<IntVal(SubSeq(cs, 1, p - 1)), Mk(1, NatOfChars(SubSeq(cs, p + 1, Len(cs))))>>
InfText == <<43, 73, 110, 102>>
MinusInfText == <<45, 73, 110, 102>>
NanText == <<78, 97, 78>>
\* texts the documentation leaves open: other bases (which a leading zero in a ratio may indicate), digit separators, other
\* ways to write infinity
LeadingZero(cs) == Len(cs) > 1 /\ cs[1] = 48
ZeroRatio(cs) == LET p == At(cs, {47}) IN p > 0 /\ (LeadingZero(Unsign(SubSeq(cs, 1, p - 1))) \/ LeadingZero(SubSeq(cs, p + 1, Len(cs))))
Open(cs) == ZeroRatio(cs) \/ \E i \in DOMAIN cs : cs[i] \in {73, 105, 95, 120, 88, 98, 66, 111, 79, 112, 80}      \* I i _ x X b B o O p P

\* ---- results: [e, k, v, s], e is "" or "err" or "panic"
Failed(res) == res.e = "err"
Gives(res, r) == res.e = "" /\ res.k = "num" /\ RatEq(res.v, r)
GivesSpecial(res, k) == res.e = "" /\ res.k = k
GivesText(res, s) == res.e = "" /\ res.k = "text" /\ res.s = s
IsInt(r) == NatDivMod(Mag(r[1]), Mag(r[2]))[2] = << >>
IntOf(r) == DivTrunc(r[1], r[2])[1]
Exactly(res, ok, r) == IF ok THEN Gives(res, r) ELSE Failed(res)
IntChars(x) == (IF Sign(x) < 0 THEN <<45>> ELSE << >>) \o NatChars(Mag(x))
Lowest(r) == LET g == NatGcd(Mag(r[1]), Mag(r[2])) IN <<Mk(Sign(r[1]), NatDivMod(Mag(r[1]), g)[1]), Mk(1, NatDivMod(Mag(r[2]), g)[1])>>

\* numbers and strings to numbers
ToInt(t, r, res) == Exactly(res, IsInt(r) /\ (t = "bigint" \/ Fits(IntOf(r), t)), r)
FromNum(from, to, r, res) ==
  CASE to \in IntTypes \cup {"bigint"} -> ToInt(to, r, res)
    [] to = "bigrat" -> Gives(res, r)
    [] to = "bigfloat" -> IF from # "bigrat" \/ Dyadic(r).ok THEN Gives(res, r) ELSE res.e = "" /\ res.k = "num" /\ Close(res.v, r)
    [] to = "float32" /\ from = "float64" ->
         IF Represents("float32", r) THEN Gives(res, r)
         ELSE IF RLeq(RAbs(r), Two2(-149)) \/ Lss(Mul(MaxFloat32, r[2]), AbsBig(r[1])) THEN Failed(res)
         ELSE res.e = "" /\ res.k = "num" /\ Represents("float32", res.v) /\ Near(res.v, r, 24, -149)
    [] to \in Floats -> Exactly(res, Represents(to, r), r)
FromText(to, cs, res) ==
  LET d == DecText(cs)
      int == IntText(cs)
      NoE == At(cs, {69, 101}) = 0
  IN  CASE to \in IntTypes \cup {"bigint"} -> IF int /\ (to \in UnsignedTypes => ~Signed(cs)) THEN ToInt(to, <<IntVal(cs), One>>, res)
                                              ELSE IF int \/ Open(cs) THEN res.e # "panic" ELSE Failed(res)
        [] to = "bigrat" -> IF d.ok THEN Gives(res, d.v) ELSE IF RatioText(cs) /\ ~ZeroRatio(cs) THEN Gives(res, RatioVal(cs))
                            ELSE IF cs \in {InfText, MinusInfText, NanText} \/ ~Open(cs) THEN Failed(res) ELSE res.e # "panic"
        [] to = "bigfloat" -> IF d.ok THEN (LET y == Dyadic(d.v)
                                            IN  IF y.ok /\ (NoE \/ NatCmp(y.odd, Mag(T53)) < 0) THEN Gives(res, d.v) ELSE res.e = "" /\ res.k = "num" /\ Close(res.v, d.v))
                              ELSE IF cs = InfText THEN GivesSpecial(res, "inf") ELSE IF cs = MinusInfText THEN GivesSpecial(res, "-inf")
                              ELSE IF cs = NanText \/ ~Open(cs) THEN Failed(res) ELSE res.e # "panic"
        [] to \in Floats -> IF d.ok THEN (IF Represents(to, d.v) THEN Gives(res, d.v)
                                          ELSE Failed(res) \/ (res.e = "" /\ res.k = "num" /\ Represents(to, res.v) /\ Close(res.v, d.v)))
                            ELSE IF cs = InfText THEN GivesSpecial(res, "inf") ELSE IF cs = MinusInfText THEN GivesSpecial(res, "-inf")
                            ELSE IF cs = NanText THEN GivesSpecial(res, "nan") ELSE IF ~Open(cs) THEN Failed(res) ELSE res.e # "panic"
        [] to = "string" -> GivesText(res, cs)
\* anything to a string
ToText(from, x, res) ==
  res.e = "" /\ res.k = "text" /\
  CASE x.k = "inf" -> res.s = InfText
    [] x.k = "-inf" -> res.s = MinusInfText
    [] x.k = "nan" -> res.s = NanText
    [] from \in IntTypes \cup {"bigint"} -> res.s = IntChars(x.v[1])
    [] from = "bigrat" -> LET l == Lowest(x.v) IN res.s = IntChars(l[1]) \o <<47>> \o IntChars(l[2])
    [] OTHER -> LET d == DecText(res.s) IN d.ok /\ (IF x.v[1] = Zero THEN d.v[1] = Zero
                                                    ELSE Near(d.v, x.v, IF from \in Floats THEN Mant(from) ELSE x.p, IF from \in Floats THEN MinExp(from) ELSE -1000000))
FromSpecial(from, to, k, res) ==
  IF to \in Floats \/ (to = "bigfloat" /\ k # "nan") THEN GivesSpecial(res, k) ELSE Failed(res)

Result(from, to, x, res) ==
  CASE x.k = "text" -> FromText(to, x.s, res)
    [] to = "string" -> ToText(from, x, res)
    [] x.k = "num" -> FromNum(from, to, x.v, res)
    [] OTHER -> FromSpecial(from, to, x.k, res)

\* A conversion, by To, AnyTo, ToBigOps or ReflectTo. The result is a number of its own: the driver changes a big result in
\* place, and then looks at the source (res.src) and at the number that the target referred to before (res.old, it was 7).
ConvertOk(from, to, x, res) ==
  /\ Result(from, to, x, res)
  /\ x.k = "num" => RatEq(res.src, x.v)
  /\ res.old = 7

\* the text of a ratio as an integer or decimal fraction if it is one, else rounded
NormalizedOk(r, res) ==
  /\ res.e = ""
  /\ LET l == Lowest(r)
         d == DecText(res.s)
         x == IF l[2] = One THEN <<1>> ELSE NatDivMod(NatPow(<<10>>, BitLen(Mag(l[2]))), Mag(l[2]))[2]
     IN  IF l[2] = One THEN res.s = IntChars(l[1])
         ELSE d.ok /\ IF x = << >> THEN RatEq(d.v, l) ELSE Close(d.v, l)
\* a decimal text, but not a ratio, to a big.Rat
FloatTextOk(cs, res) ==
  LET d == DecText(cs)
     IN  IF d.ok THEN Gives(res, d.v) ELSE IF cs \in {InfText, MinusInfText, NanText} \/ ~Open(cs) THEN Failed(res) ELSE (res.e = "" => res.k = "num") /\ res.e # "panic"
NilSourceOk(res) == res.e = "err"

Converted == convs' = convs + 1
Convert(from, to, x, res) == ConvertOk(from, to, x, res) /\ Converted
=============================================================================
