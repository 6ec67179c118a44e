------------------------------ MODULE RangeMC ------------------------------
(* All ranges between few bounds, all sequences of values that are set *)
EXTENDS Range, Json, TLC
CONSTANTS MaxSets
VARIABLES t, ops
N(n, d) == Num(<<Big(n), Big(d)>>)
I(x) == Num(<<x, One>>)
Points(ty) == IF ty = "float64" THEN {Special("nan"), Special("-inf"), Special("+inf"), N(-1, 1), N(0, 1), N(1, 4), N(1, 1)}
              ELSE {I(MinOf(ty)), I(Add(MinOf(ty), One)), I(Big(5)), I(Sub(MaxOf(ty), One)), I(MaxOf(ty))}
Init == RangeInit /\ t = "" /\ ops = << >>
More(o) == ops' = Append(ops, o)
Pick == t = "" /\ t' \in {"int8", "uint8", "int64", "uint64", "float64"} /\ UNCHANGED <<rg, ops>>
Open == \E min, max \in Points(t), minc, maxc \in BOOLEAN : \E v \in Points(t) :
          LET ok == Below(min, max) /\ Within([min |-> min, max |-> max, minc |-> minc, maxc |-> maxc], v)
              res == IF ok THEN "ok" ELSE "panic"
          IN  New(min, minc, max, maxc, v, res) /\ More([op |-> "new", t |-> t, min |-> min, minc |-> minc, max |-> max, maxc |-> maxc, val |-> v, res |-> res])
Set == Len(ops) <= MaxSets /\ \E v \in Points(t) :
          LET res == IF Within(rg, v) THEN "ok" ELSE "err" IN SetValue(v, res) /\ More([op |-> "set", val |-> v, res |-> res])
Next == Pick \/ (t # "" /\ UNCHANGED t /\ IF ops = << >> THEN Open ELSE rg # NoRange /\ Set)
Spec == Init /\ [][Next]_<<rg, t, ops>>
\* the value is always within the bounds
Inv == rg # NoRange => Below(rg.min, rg.max) /\ Within(rg, rg.val)
Emit == (ops # << >> /\ (rg = NoRange \/ Len(ops) = MaxSets + 1)) =>
          PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> IF rg = NoRange THEN ops ELSE Append(ops, [op |-> "get", res |-> rg])]))
=============================================================================
