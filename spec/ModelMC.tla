------------------------------ MODULE ModelMC ------------------------------
(* Every construction from few parts, of which any may be missing *)
EXTENDS Model, Json
CONSTANTS Deep
VARIABLES op
Init == ModelInit /\ op = << >>
All(s) == {s[i] : i \in 1..Len(s)}
Do(o) == op' = o /\ UNCHANGED model
Access == {<< >>} \cup {<<l>> : l \in All(Levels)} \cup {<<"Public", "Package">>, <<"Private", "Public">>}
NamesOf == {<< >>, <<"a">>, <<"b", "a">>, <<"">>, <<"a", "a", "c">>}
T(typ, access, elem, key, name, names, bounds) == [typ |-> typ, access |-> access, elem |-> elem, key |-> key, name |-> name, names |-> names, bounds |-> bounds]
Next == op = << >> /\
  \/ \E t \in All(Scalars) \cup All(Aggregates) : Do([op |-> "sort", typ |-> t])
  \/ \E o \in All(Unary) \cup All(Binary) \cup All(Booleans) : Do([op |-> "operator", o |-> o])
  \/ \E t \in All(Scalars) \cup {"JSON"}, a \in Access : Do([op |-> "type", x |-> T(t, a, 0, 0, "", << >>, << >>)])
  \/ \E t \in {"List", "Maybe", "Set"}, a \in Access, e \in 0..3 : Do([op |-> "type", x |-> T(t, a, e, 0, "", << >>, << >>)])
  \/ \E a \in Access, e \in 0..3, b \in {<< >>, <<0>>, <<3>>, <<2, 0, 5>>} : Do([op |-> "type", x |-> T("Array", a, e, 0, "", << >>, b)])
  \/ \E a \in Access, e \in 0..3, k \in 0..3 : Do([op |-> "type", x |-> T("Map", a, e, k, "", << >>, << >>)])
  \/ \E t \in {"Enum", "Object"}, a \in Access, e \in 0..3, n \in {"", "N"}, ns \in NamesOf : Do([op |-> "type", x |-> T(t, a, e, 0, n, ns, << >>)])
  \/ \E k \in 0..3, s \in {"", "0", "x y"}, a \in Access, c \in BOOLEAN, sort \in {"literal", "variable"} :
       (sort = "literal" => a = << >> /\ ~c) /\ Do([op |-> "value", x |-> [sort |-> sort, of |-> k, s |-> s, access |-> a, const |-> c]])
  \/ \E o \in All(Unary), v \in 0..3 : Do([op |-> "expr", o |-> o, vals |-> <<v>>])
  \/ \E o \in All(Binary), v \in 0..3, u \in 0..3 : Do([op |-> "expr", o |-> o, vals |-> <<v, u>>])
  \/ \E o \in All(Booleans), n \in 1..Deep : \E vs \in [1..n -> 0..3] : Do([op |-> "expr", o |-> o, vals |-> vs])
  \/ \E n \in 2..4 : \E vs \in [1..n -> {"0", "1", "-7"}] : Do([op |-> "tuple", same |-> TRUE, vals |-> vs])
  \/ \E n \in 2..4, a \in {"0", "5"}, b \in {"", "s"}, c \in {"true", "false"}, d \in {"<nil>", "e"} : Do([op |-> "tuple", same |-> FALSE, vals |-> SubSeq(<<a, b, c, d>>, 1, n)])
Spec == Init /\ [][Next]_<<model, op>>
\* the sorts of types and of operators are disjoint, every constant is of one sort only
Inv == /\ All(Scalars) \cap All(Aggregates) = {}
       /\ All(Unary) \cap All(Binary) = {} /\ (All(Unary) \cup All(Binary)) \cap All(Booleans) = {}
       /\ op # << >> /\ op.op = "operator" => LET f == Operator(op.o) IN Len(SelectSeq(<<f.unary, f.binary, f.boolean>>, LAMBDA b : b)) = 1
       /\ op # << >> /\ op.op = "type" => LET d == TypeDef(op.x) IN d # Panic => d.typ = op.x.typ /\ Contains(Levels, d.access)
Emit == op # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<op>>]))
=============================================================================
