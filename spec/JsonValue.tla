------------------------------ MODULE JsonValue ------------------------------
(***************************************************************************)
(* JSON values: made from Go values, taken apart again, and searched by    *)
(* paths.                                                                  *)
(*                                                                         *)
(* A Go value is a tree of records [g, ...], g is its type: the integer    *)
(* types, "bigint" and "myint" (a subtype) with n, an integer of BigNum;   *)
(* float32, float64, "bigfloat" (of precision prec), "bigrat" with n, a    *)
(* rational of BigNum; "numstr", "string", "mystring" with s, code points; *)
(* "bool" with b; "nil"; "notnum", a NaN or infinity; "bad", of a type     *)
(* that has no JSON value; "slice" and "valueslice" with vals; "map" and   *)
(* "valuemap" with keys, ascending, and vals.                              *)
(*                                                                         *)
(* A path is a sequence of steps <<"k", key>> and <<"i", index>>.          *)
(***************************************************************************)
EXTENDS JsonText, BigNum

VARIABLE path    \* the path that was parsed last: [ok, steps]
NoPath == [ok |-> FALSE, steps |-> << >>]
ValueInit == path = NoPath
VInvalid == <<-1>>

\* ---- the number a text denotes, a rational
\* the natural number of a sequence of digits
RECURSIVE LimbsOf(_)
LimbsOf(ds) == IF ds = << >> THEN << >>
               ELSE LET n == Len(ds)
                        D(i) == IF i >= 1 THEN ds[i] - 48 ELSE 0
                    IN  <<D(n) + 10 * D(n - 1) + 100 * D(n - 2) + 1000 * D(n - 3)>> \o LimbsOf(SubSeq(ds, 1, n - 4))
NatOfDigits(ds) == NatNorm(LimbsOf(ds))
RECURSIVE SmallOf(_, _)
SmallOf(ds, acc) == IF ds = << >> THEN acc ELSE SmallOf(Tail(ds), IF acc > 100000 THEN acc ELSE acc * 10 + Head(ds) - 48)
NumberOf(cs) ==
  LET neg == cs[1] = 45
      a == IF neg THEN 2 ELSE 1
      b == SkipDigits(cs, a)
      c == IF b <= Len(cs) /\ cs[b] = 46 THEN SkipDigits(cs, b + 1) ELSE b
      frac == IF c > b THEN SubSeq(cs, b + 1, c - 1) ELSE << >>
      mant == Mk(IF neg THEN -1 ELSE 1, NatOfDigits(SubSeq(cs, a, b - 1) \o frac))
      eneg == c + 1 <= Len(cs) /\ cs[c + 1] = 45
      exp == IF c > Len(cs) THEN 0 ELSE LET d == IF cs[c + 1] \in {43, 45} THEN c + 2 ELSE c + 1 IN SmallOf(SubSeq(cs, d, Len(cs)), 0)
      e == (IF eneg THEN -exp ELSE exp) - Len(frac)
  IN  IF e >= 0 THEN <<Mul(mant, Pow10(e)), One>> ELSE <<mant, Pow10(-e)>>

\* |t - x| <= |x| / 2^bits
Near(t, x, bits) == LET diff == RatAdd(t, <<Neg(x[1]), x[2]>>)
                    IN  RatCmp(<<Mul(AbsBig(diff[1]), Pow2(bits)), diff[2]>>, <<AbsBig(x[1]), x[2]>>) <= 0
NearAbs(t, x, bits) == LET diff == RatAdd(t, <<Neg(x[1]), x[2]>>) IN RatCmp(<<Mul(AbsBig(diff[1]), Pow2(bits)), diff[2]>>, <<One, One>>) <= 0
DecimalFraction(x) == LET d == NatDivMod(Mag(x[2]), NatGcd(Mag(x[1]), Mag(x[2])))[1] IN NatDivMod(NatPow(<<10>>, 14 * Len(d)), d)[2] = << >>
\* a text that stands for a number of a type: exact, or the number of the type nearest to it is the number
NumberOk(node, cs) ==
  /\ IsNumberText(cs)
  /\ LET t == NumberOf(cs) IN
     CASE node.g \in IntTypes \cup {"bigint", "myint"} -> RatEq(t, RatOf(node.n))
       [] node.g = "float64" -> Near(t, node.n, 53) \/ NearAbs(t, node.n, 1075)
       [] node.g = "float32" -> Near(t, node.n, 24) \/ NearAbs(t, node.n, 150)
       [] node.g = "bigfloat" -> Near(t, node.n, node.prec)
       [] node.g = "bigrat" -> IF DecimalFraction(node.n) THEN RatEq(t, node.n) ELSE Near(t, node.n, 50)
NumberTypes == IntTypes \cup {"bigint", "myint", "float64", "float32", "bigfloat", "bigrat"}

\* ---- from Go values
RECURSIVE Convertible(_)
Convertible(node) ==
  CASE node.g \in {"bad", "notnum"} -> FALSE
    [] node.g = "numstr" -> IsNumberText(node.s)
    [] node.g \in {"slice", "map", "valueslice", "valuemap"} -> \A i \in DOMAIN node.vals : Convertible(node.vals[i])
    [] OTHER -> TRUE

\* the position after the encoding at p of v, if it is that of node, else 0
RECURSIVE Matches(_, _, _), MatchesAll(_, _, _, _), MatchesMembers(_, _, _, _)
Slice(v, p, n) == SubSeq(v, p, p + n - 1)
At(v, p) == IF p <= Len(v) THEN v[p] ELSE -9
MatchesText(tag, s, v, p) == IF At(v, p) = tag /\ At(v, p + 1) = Len(s) /\ Slice(v, p + 2, Len(s)) = s THEN p + 2 + Len(s) ELSE 0
Matches(node, v, p) ==
  CASE node.g = "nil" -> IF At(v, p) = 0 THEN p + 1 ELSE 0
    [] node.g = "bool" -> IF At(v, p) = (IF node.b THEN 2 ELSE 1) THEN p + 1 ELSE 0
    [] node.g \in {"string", "mystring"} -> MatchesText(4, node.s, v, p)
    [] node.g = "numstr" -> MatchesText(3, node.s, v, p)
    [] node.g \in NumberTypes -> IF At(v, p) = 3 /\ At(v, p + 1) > 0 /\ NumberOk(node, Slice(v, p + 2, v[p + 1])) THEN p + 2 + v[p + 1] ELSE 0
    [] node.g \in {"slice", "valueslice"} -> IF At(v, p) = 5 /\ At(v, p + 1) = Len(node.vals) THEN MatchesAll(node.vals, 1, v, p + 2) ELSE 0
    [] node.g \in {"map", "valuemap"} -> IF At(v, p) = 6 /\ At(v, p + 1) = Len(node.vals) THEN MatchesMembers(node, 1, v, p + 2) ELSE 0
MatchesAll(nodes, i, v, p) == IF i > Len(nodes) THEN p
                              ELSE LET q == Matches(nodes[i], v, p) IN IF q = 0 THEN 0 ELSE MatchesAll(nodes, i + 1, v, q)
MatchesMembers(node, i, v, p) ==
  IF i > Len(node.vals) THEN p
  ELSE LET key == node.keys[i] IN
       IF At(v, p) = Len(key) /\ Slice(v, p + 1, Len(key)) = key
       THEN LET q == Matches(node.vals[i], v, p + 1 + Len(key)) IN IF q = 0 THEN 0 ELSE MatchesMembers(node, i + 1, v, q)
       ELSE 0

\* res is [v, any, e]: the value, what it gives as an any again, the error
ToValue(node, res) ==
  /\ IF Convertible(node) THEN res.e = "" /\ Matches(node, res.v, 1) = Len(res.v) + 1 /\ res.any = res.v
     ELSE res.e = "err" /\ res.v = VInvalid
  /\ UNCHANGED path

\* ---- taking values apart: every accessor gives its result, or panics
Panic == <<-9>>
WordTrue == <<116, 114, 117, 101>>
WordFalse == <<102, 97, 108, 115, 101>>
Accessors(v) ==
  LET t == v[1]
      text == IF t \in {3, 4} THEN SubSeq(v, 3, Len(v)) ELSE << >>
  IN  [type |-> CASE t = 0 -> "Null" [] t \in {1, 2} -> "Boolean" [] t = 3 -> "Number" [] t = 4 -> "String" [] t = 5 -> "Array" [] t = 6 -> "Object" [] OTHER -> "",
       map |-> IF t = 6 THEN v ELSE Panic, tomap |-> IF t = 6 THEN v ELSE Panic,
       slice |-> IF t = 5 THEN v ELSE Panic, toslice |-> IF t = 5 THEN v ELSE Panic,
       string |-> CASE t \in {3, 4} -> text [] t = 1 -> WordFalse [] t = 2 -> WordTrue [] OTHER -> Panic,
       number |-> IF t = 3 THEN text ELSE Panic,
       bool |-> CASE t = 1 -> <<0>> [] t = 2 -> <<1>> [] OTHER -> Panic,
       isnull |-> t = 0, isdoc |-> t \in {5, 6},
       any |-> IF t = -1 THEN VNull ELSE v]
Apart(v, res) == res = Accessors(v) /\ UNCHANGED path

\* ---- paths: one or more of .key and [index]
RECURSIVE KeyEnd(_, _)
KeyEnd(cs, p) == IF p <= Len(cs) /\ cs[p] \notin {46, 91, 93} THEN KeyEnd(cs, p + 1) ELSE p
RECURSIVE Steps(_, _, _)
Steps(cs, p, acc) ==
  IF p > Len(cs) THEN [ok |-> acc # << >>, steps |-> acc]
  ELSE IF cs[p] = 46
  THEN LET q == KeyEnd(cs, p + 1) IN IF q = p + 1 THEN NoPath ELSE Steps(cs, q, Append(acc, <<"k", SubSeq(cs, p + 1, q - 1)>>))
  ELSE IF cs[p] = 91
  THEN LET q == SkipDigits(cs, p + 1)
           i == Mk(1, NatOfDigits(SubSeq(cs, p + 1, q - 1)))
       IN  IF q = p + 1 \/ q > Len(cs) \/ cs[q] # 93 \/ ~Fits(i, "int") THEN NoPath
           ELSE Steps(cs, q + 1, Append(acc, <<"i", i>>))
  ELSE NoPath
ParsePath(cs, res) == path' = Steps(cs, 1, << >>) /\ res = (IF path'.ok THEN "" ELSE "badpath")

\* the position after the value at p
RECURSIVE After(_, _), AfterAll(_, _, _), AfterMembers(_, _, _)
After(v, p) == CASE v[p] \in {3, 4} -> p + 2 + v[p + 1]
                 [] v[p] = 5 -> AfterAll(v, p + 2, v[p + 1])
                 [] v[p] = 6 -> AfterMembers(v, p + 2, v[p + 1])
                 [] OTHER -> p + 1
AfterAll(v, p, n) == IF n = 0 THEN p ELSE AfterAll(v, After(v, p), n - 1)
AfterMembers(v, p, n) == IF n = 0 THEN p ELSE AfterMembers(v, After(v, p + 1 + v[p]), n - 1)
\* the position of the value of a key among the n members from p on, 0 if there is none
RECURSIVE Member(_, _, _, _)
Member(v, p, n, key) == IF n = 0 THEN 0
                        ELSE IF Slice(v, p + 1, v[p]) = key THEN p + 1 + v[p] ELSE Member(v, After(v, p + 1 + v[p]), n - 1, key)
RECURSIVE Element(_, _, _)
Element(v, p, i) == IF i = 0 THEN p ELSE Element(v, After(v, p), i - 1)
RECURSIVE Walk(_, _, _)
Walk(v, p, steps) ==
  IF steps = << >> THEN [v |-> SubSeq(v, p, After(v, p) - 1), e |-> ""]
  ELSE LET s == Head(steps)
           q == IF s[1] = "k" THEN (IF v[p] = 6 THEN Member(v, p + 2, v[p + 1], s[2]) ELSE 0)
                ELSE IF v[p] = 5 /\ Lss(s[2], Big(v[p + 1])) THEN Element(v, p + 2, IF s[2] = Zero THEN 0 ELSE s[2][2]) ELSE 0
       IN  IF q = 0 THEN [v |-> VInvalid, e |-> "nopath"] ELSE Walk(v, q, Tail(steps))
Lookup(v, res) == path.ok /\ res = Walk(v, 1, path.steps) /\ UNCHANGED path
=============================================================================
