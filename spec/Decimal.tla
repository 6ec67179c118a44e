------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Decimals of 18 digits.  A decimal is [v, s, n]: the coefficient (an     *)
(* integer of BigNum), the scale 0..18, and whether results are            *)
(* normalized.  Its value is v / 10^s.  Decimals live in registers, so     *)
(* that results become operands.                                           *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

CONSTANT Regs
VARIABLE reg
DecZero == [v |-> Zero, s |-> 0, n |-> TRUE]
NoDecimals == [r \in Regs |-> DecZero]
DecimalInit == reg = NoDecimals

Max18 == Sub(Pow10(18), One)
RoundMax == Sub(Pow10(18), Big(6))               \* 999_999_999_999_999_994
BigDivisor == Pow10(17)
\* powers of ten, evaluated once
Tens == [i \in 0..60 |-> NatPow(<<10>>, i)]
T10(i) == Mk(1, Tens[i])
ValidV(v) == NatCmp(Mag(v), Mag(Max18)) <= 0

RECURSIVE NormVS(_, _)
NormVS(v, s) == IF v = Zero THEN <<v, 0>>
                ELSE IF s = 0 THEN <<v, s>>
                ELSE LET qr == NatDivMod(Mag(v), <<10>>) IN IF qr[2] = << >> THEN NormVS(Mk(Sign(v), qr[1]), s - 1) ELSE <<v, s>>
Norm(d) == LET p == NormVS(d.v, d.s) IN [d EXCEPT !.v = p[1], !.s = p[2]]
\* zero is always normalized
Settle(d) == IF d.n \/ d.v = Zero THEN Norm(d) ELSE d
Dec(v, s, n) == [v |-> v, s |-> s, n |-> n]
RatVal(d) == <<d.v, T10(d.s)>>
SameValue(d, e) == RatEq(RatVal(d), RatVal(e))

\* ---- text
Zeros(n) == [i \in 1..n |-> 48]
Str(d) == LET ds == NatChars(Mag(d.v))
              m == IF d.s = 0 THEN ds
                   ELSE IF Len(ds) <= d.s THEN <<48, 46>> \o Zeros(d.s - Len(ds)) \o ds
                   ELSE SubSeq(ds, 1, Len(ds) - d.s) \o <<46>> \o SubSeq(ds, Len(ds) - d.s + 1, Len(ds))
          IN  IF Sign(d.v) < 0 THEN <<45>> \o m ELSE m
IntPart(d) == NatDivMod(Mag(d.v), Tens[d.s])[1]
\* digits before and after the point, as in Str
IntDigits(d) == LET n == Len(NatChars(Mag(d.v))) IN IF d.s = 0 THEN n ELSE IF n <= d.s THEN 1 ELSE n - d.s
Padded(d, ni, nf) ==
  LET s == Str([d EXCEPT !.v = AbsBig(@)])
  IN  <<IF Sign(d.v) < 0 THEN 45 ELSE 32>> \o Zeros(ni - IntDigits(d)) \o s \o (IF nf > 0 /\ d.s = 0 THEN <<46>> ELSE << >>) \o Zeros(nf - d.s)
MaxI(a, b) == IF a > b THEN a ELSE b

\* the number a text denotes: [ok, v, s], or ok = "may" if it is open whether it denotes one
RECURSIVE DigitsVal(_)
DigitsVal(cs) == IF cs = << >> THEN Zero ELSE Add(Mul(DigitsVal(SubSeq(cs, 1, Len(cs) - 1)), Ten), Big(cs[Len(cs)] - 48))
ReadText(t) ==
  LET neg == t # << >> /\ t[1] = 45
      u == IF neg THEN Tail(t) ELSE t
      dots == {i \in DOMAIN u : u[i] = 46}
      bad == \E i \in DOMAIN u : u[i] # 46 /\ u[i] \notin 48..57
      p == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
      is == SubSeq(u, 1, p - 1)
      fs == SubSeq(u, p + 1, Len(u))
      No == [ok |-> "no", v |-> Zero, s |-> 0]
  IN  IF t = << >> \/ bad \/ Cardinality(dots) > 1 THEN No
      ELSE LET v == DigitsVal(is \o fs) IN
           IF ~ValidV(v) THEN No
           ELSE [ok |-> IF Len(is) + Len(fs) > 18 \/ Len(is) + Len(fs) = 0 THEN "may" ELSE "yes", v |-> IF neg THEN Neg(v) ELSE v, s |-> Len(fs)]

\* ---- calculations: the decimals a calculation may result in are [e, v, s], e is "" or the kind of error
Ok(v, s) == [e |-> "", v |-> v, s |-> s]
Err(e) == [e |-> e, v |-> Zero, s |-> 0]
Away(sgn) == IF sgn >= 0 THEN "over" ELSE "under"
\* one half away from zero
RoundTo(v, drop) == DivRound(v, T10(drop))

\* the pair with the same scale: [e, a, b]. The one with the smaller scale gets the scale of the other if it has room for the digits,
\* else the other one is rounded
Aligned(a, b) ==
  IF a.s = b.s THEN {[e |-> "", a |-> a, b |-> b]}
  ELSE LET big == IF a.s > b.s THEN a ELSE b
           small == IF a.s > b.s THEN b ELSE a
           diff == big.s - small.s
           Pair(x, y) == [e |-> "", a |-> IF a.s > b.s THEN x ELSE y, b |-> IF a.s > b.s THEN y ELSE x]
       IN  IF small.v = Zero \/ NatDigits(Mag(small.v)) + diff <= 18
           THEN {Pair(big, [small EXCEPT !.v = Mul(@, T10(diff)), !.s = big.s])}
           ELSE {Pair([big EXCEPT !.v = RoundTo(@, diff), !.s = small.s], small)}
                \cup (IF NatCmp(Mag(small.v), Mag(RoundMax)) > 0 THEN {[e |-> "err", a |-> a, b |-> b]} ELSE {})

AddResults(a, b) ==
  {IF p.e # "" THEN Err("err")
   ELSE LET x == Add(p.a.v, p.b.v) IN IF ValidV(x) THEN Ok(x, p.a.s) ELSE Err(Away(Sign(x))) : p \in Aligned(a, b)}
MulResults(a, b) ==
  LET x == Mul(a.v, b.v)
      s == a.s + b.s
      drop == MaxI(0, MaxI(NatDigits(Mag(x)), s) - 18)
  IN  IF drop > s THEN {Err(Away(Sign(x)))}
      ELSE LET r == RoundTo(x, drop)
           IN  IF ValidV(r) THEN {Ok(r, s - drop)}
               ELSE IF s = drop THEN {Err(Away(Sign(x)))} ELSE {Ok(DivTrunc(r, Ten)[1], s - drop - 1)}
\* the quotient with as many decimals as there is room for, the last one rounded
DivResults(a, b) ==
  IF b.v = Zero THEN {Err("err")}
  ELSE LET sgn == Sign(a.v) * Sign(b.v)
           num == NatMul(Mag(a.v), Tens[b.s])
           den == NatMul(Mag(b.v), Tens[a.s])
           At(s) == NatDivMod(NatMul(num, Tens[s]), den)[1]
           most == NatDigits(At(18)) - 18                  \* the digits there is no room for, with 18 decimals
           best == IF most <= 0 THEN 18 ELSE 18 - most
           r == DivRound(Mk(1, NatMul(num, Tens[MaxI(best, 0)])), Mk(1, den))
           exact == IF best < 0 THEN Err(Away(sgn))
                    ELSE IF ValidV(r) THEN Ok(Mk(sgn, Mag(r)), best)
                    ELSE IF best = 0 THEN Err(Away(sgn)) ELSE Ok(Mk(sgn, NatDivMod(Mag(r), <<10>>)[1]), best - 1)
       IN  {exact} \cup (IF NatCmp(Mag(b.v), Mag(BigDivisor)) > 0 THEN {Err(Away(sgn))} ELSE {})
Results(f, a, b) ==
  CASE f = "add" -> AddResults(a, b) [] f = "sub" -> AddResults(a, [b EXCEPT !.v = Neg(@)])
    [] f = "mul" -> MulResults(a, b) [] f = "div" -> DivResults(a, b)

\* ---- the calls. A decimal is observed as its text, its scale, and whether it normalizes
Shows(d, res) == res.str = Str(d) /\ res.scale = d.s /\ res.norm = d.n
Set(r, d) == reg' = [reg EXCEPT ![r] = d]

Make(r, v, s, n, res) ==
  IF s <= 18 /\ ValidV(v) THEN LET d == Settle(Dec(v, s, n)) IN res.e = "" /\ Shows(d, res) /\ Set(r, d)
  ELSE res.e # "" /\ res.e # "panic" /\ UNCHANGED reg
Parse(r, text, res) ==
  LET t == ReadText(text) IN
  \/ t.ok # "no" /\ res.e = "" /\ LET d == Norm(Dec(t.v, t.s, TRUE)) IN Shows(d, res) /\ Set(r, d)
  \/ t.ok # "yes" /\ res.e = "err" /\ UNCHANGED reg
\* what there is to see of a decimal
Show(r, res) ==
  LET d == reg[r] IN
  /\ Shows(d, res)
  /\ res.precision = Len(Str([d EXCEPT !.v = AbsBig(@)])) - (IF d.s > 0 THEN 1 ELSE 0)
  /\ res.sign = Sign(d.v) /\ res.less1 = (IntPart(d) = << >>)
  /\ UNCHANGED reg
Compare(a, b, res) == res = RatCmp(RatVal(reg[a]), RatVal(reg[b])) /\ UNCHANGED reg
Format(a, b, res) ==
  LET ni == MaxI(IntDigits(reg[a]), IntDigits(reg[b])) nf == MaxI(reg[a].s, reg[b].s)
  IN  res = <<Padded(reg[a], ni, nf), Padded(reg[b], ni, nf)>> /\ UNCHANGED reg
\* both registers are adjusted, or none of them
Adjust(a, b, res) ==
  \E p \in Aligned(reg[a], reg[b]) :
    /\ res.e = p.e /\ Shows(p.a, res.a) /\ Shows(p.b, res.b)
    /\ reg' = [reg EXCEPT ![a] = p.a, ![b] = p.b]
Negate(r, a, res) == LET d == [reg[a] EXCEPT !.v = Neg(@)] IN Shows(d, res) /\ Set(r, d)
Normalize(r, res) == LET d == Norm(reg[r]) IN Shows(d, res) /\ Set(r, d)
\* The result of a decimal that normalizes is normalized. The result of a sum of others has the common scale; that of a product or quotient
\* may have zeros at the end
Calc(f, r, a, b, res) ==
  LET x == reg[a] IN
  \E o \in Results(f, x, reg[b]) :
    /\ res.e = o.e
    /\ IF o.e # "" THEN UNCHANGED reg
       ELSE /\ res.norm = x.n
            /\ IF x.n \/ f \in {"add", "sub"}
               THEN LET d == Settle(Dec(o.v, o.s, x.n)) IN Shows(d, res) /\ Set(r, d)
               ELSE LET d == Dec(res.v, res.scale, x.n)
                    IN  /\ d.s \in 0..18 /\ ValidV(d.v) /\ Shows(d, res) /\ SameValue(d, Dec(o.v, o.s, TRUE)) /\ (d.v = Zero => d.s = 0)
                        /\ Set(r, d)
\* quotient and remainder of a division by a natural number that is no larger
QuoRem(q, r, a, o, res) ==
  LET d == reg[a] IN
  IF o = Zero \/ NatCmp(IntPart(d), Mag(o)) < 0 THEN res.e = "err" /\ UNCHANGED reg
  ELSE LET qr == DivTrunc(d.v, o)
           qd == Dec(qr[1], d.s, d.n)
           rd == Settle(Dec(qr[2], d.s, d.n))
       IN  res.e = "" /\ Shows(qd, res.q) /\ Shows(rd, res.r) /\ reg' = [reg EXCEPT ![q] = qd, ![r] = rd]
\* the parts of a division that add up to the whole, the larger ones first
Parts(d, o) ==
  LET qr == DivTrunc(d.v, Big(o))
  IN  [i \in 1..o |-> Dec(IF Lss(Big(i - 1), AbsBig(qr[2])) THEN Add(qr[1], Big(Sign(d.v))) ELSE qr[1], d.s, d.n)]
DivAdd(r, a, o, res) ==
  LET d == reg[a] IN
  IF o = 0 \/ NatCmp(IntPart(d), NatOf(o)) < 0 THEN res.e = "err" /\ UNCHANGED reg
  ELSE LET ps == Parts(d, o)
       IN  res.e = "" /\ Len(res.parts) = o /\ (\A i \in 1..o : Shows(ps[i], res.parts[i])) /\ Set(r, ps[1])
=============================================================================
