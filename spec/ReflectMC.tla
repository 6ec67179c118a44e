----------------------------- MODULE ReflectMC -----------------------------
(* All types and values with up to a number of pointers, any of which may be nil *)
EXTENDS Reflect, Json, TLC
CONSTANTS Ptrs
VARIABLES t, x, op
Init == ReflectInit /\ t = << >> /\ x = << >> /\ op = << >>
T(b, n, p) == [b |-> b, n |-> n, p |-> p]
Pick == t = << >> /\ \E b \in Bases, n \in BOOLEAN, p \in 0..Ptrs : t' = T(b, n, p) /\ UNCHANGED <<x, op, looked>>
Value == t # << >> /\ x = << >> /\ op = << >> /\ \E z \in 0..t.p, v \in {0, 1} : x' = [t |-> t, nilat |-> z, v |-> v] /\ UNCHANGED <<t, op, looked>>
Do(o) == op' = o /\ UNCHANGED <<t, x, looked>>
DoIt == op = << >> /\
  \/ t = << >> /\ \/ Do([op |-> "novalue"])
                  \/ \E k \in 0..8 : Do([op |-> "fields", s |-> k])
                  \/ \E k \in 0..8, name \in {"A", "B", "b", "C", "D", "S1", "S2", "S4", "S6", "X"} : Do([op |-> "field", s |-> k, name |-> name])
                  \/ \E m \in BOOLEAN : Do([op |-> "assert", x |-> << >>, t |-> T("int", FALSE, 0), must |-> m])
  \/ t # << >> /\ x = << >> /\ Do([op |-> "type", t |-> t])
  \/ x # << >> /\
       \/ Do([op |-> "value", x |-> x])
       \/ \E u \in {x.t, [x.t EXCEPT !.n = ~@], [x.t EXCEPT !.p = (@ + 1) % 3], T("int", FALSE, 0)}, m \in BOOLEAN : Do([op |-> "assert", x |-> <<x>>, t |-> u, must |-> m])
       \/ \E b \in (CASE x.t.b = "any" -> {"any", "int"} [] x.t.b = "string" -> {"string", "struct", "bool"} [] OTHER -> {x.t.b, "int", "float32", "struct", "bool"}), n \in BOOLEAN : (b \in HasNil => ~n) /\ Do([op |-> "store", x |-> x, src |-> [t |-> T(b, n, 0), nilat |-> 0, v |-> IF b = "bool" THEN 1 ELSE 7]])
Next == Pick \/ Value \/ DoIt
Spec == Init /\ [][Next]_<<t, x, op, looked>>
\* looking behind pointers twice gives the same
Inv == x # << >> => /\ \A i \in 1..Len(DerefMax(x)) : DerefMax(DerefMax(x)[i]) = DerefMax(x)
                    /\ Deref(x) # << >> => DerefMax(x) # << >> /\ Deref(DerefMax(x)[1]) = Deref(x)
                    /\ ToBase(ToBase(x)) = ToBase(x)
Emit == op # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<op>>]))
=============================================================================
