------------------------------- MODULE Range -------------------------------
(***************************************************************************)
(* A range holds a value within bounds, each open or closed.  A number is  *)
(* [k, q]: k is "num", with q its exact value as a rational, or "+inf",    *)
(* "-inf" or "nan".                                                        *)
(***************************************************************************)
EXTENDS BigNum

VARIABLE rg     \* the range [min, max, minc, maxc, val], or << >> if there is none
NoRange == << >>
RangeInit == rg = NoRange

Num(q) == [k |-> "num", q |-> q]
Special(k) == [k |-> k, q |-> <<Zero, One>>]
Below(a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN FALSE
  ELSE IF a.k = "num" /\ b.k = "num" THEN RatCmp(a.q, b.q) < 0
  ELSE a.k # b.k /\ (a.k = "-inf" \/ b.k = "+inf")
Same(a, b) == IF a.k = "num" /\ b.k = "num" THEN RatEq(a.q, b.q) ELSE a.k = b.k
Within(r, v) ==
  /\ v.k # "nan"
  /\ Below(r.min, v) \/ (r.minc /\ Same(r.min, v))
  /\ Below(v, r.max) \/ (r.maxc /\ Same(r.max, v))

\* a range can only be made of a minimum that is less than the maximum, and a value within
New(min, minc, max, maxc, val, res) ==
  LET r == [min |-> min, max |-> max, minc |-> minc, maxc |-> maxc, val |-> val]
      ok == Below(min, max) /\ Within(r, val)
  IN  /\ res = (IF ok THEN "ok" ELSE "panic")
      /\ rg' = IF ok THEN r ELSE rg
SetValue(v, res) ==
  LET ok == Within(rg, v)
  IN  /\ res = (IF ok THEN "ok" ELSE "err")
      /\ rg' = IF ok THEN [rg EXCEPT !.val = v] ELSE rg
Get(res) ==
  /\ Same(res.min, rg.min) /\ Same(res.max, rg.max) /\ Same(res.val, rg.val) /\ res.minc = rg.minc /\ res.maxc = rg.maxc
  /\ UNCHANGED rg
=============================================================================
