------------------------------ MODULE Reflect ------------------------------
(***************************************************************************)
(* Types and values through reflection.  A type is [b, n, p]: a base, is   *)
(* it a named type of that base, and the number of pointers to it.  A      *)
(* value is of a type, with a number as its content; 0 is the nil of bases *)
(* that have nil.  One of the pointers may be nil: that at level nilat,    *)
(* counted from the outside, 0 for none.  An interface holds the int that  *)
(* is its content.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLE looked
ReflectInit == looked = 0
Looked == UNCHANGED looked

Signed == {"int", "int8", "int16", "int32", "int64"}
Unsigned == {"uint", "uint8", "uint16", "uint32", "uint64"}
Floats == {"float32", "float64"}
Numbers == Signed \cup Unsigned \cup Floats
Primitives == Numbers \cup {"bool", "string", "complex64", "complex128"}
Bigs == {"big.Int", "big.Float", "big.Rat"}
HasNil == {"any", "slice", "map", "func", "chan"}
Bases == Primitives \cup Bigs \cup HasNil \cup {"struct", "array", "uintptr"}

AtMost1(p) == IF p > 1 THEN 1 ELSE p
IsPrimitiveT(t) == t.p = 0 /\ t.b \in Primitives
IsBig(t) == t.p = 1 /\ t.b \in Bigs /\ ~t.n
\* what is known of a type: 0 or 1 types in sequences
TypeFacts(t) ==
  [e |-> "", deref |-> [t EXCEPT !.p = 0], max |-> [t EXCEPT !.p = AtMost1(@)], num |-> t.p, big |-> IsBig(t),
   signed |-> t.p = 0 /\ t.b \in Signed, unsigned |-> t.p = 0 /\ t.b \in Unsigned,
   numeric |-> (t.p = 0 /\ t.b \in Numbers) \/ IsBig(t),
   nillable |-> t.p > 0 \/ t.b \in HasNil, prim |-> IsPrimitiveT(t),
   base |-> IF IsPrimitiveT(t) /\ t.n THEN <<[t EXCEPT !.n = FALSE]>> ELSE << >>]

\* a value: [t, nilat, v]; what does not exist is << >>.  Behind a nil, the content is shown as 0
Shown(x) == [t |-> x.t, nilat |-> x.nilat, v |-> IF x.nilat # 0 THEN 0 ELSE x.v]
Deref(x) == IF x.nilat # 0 THEN << >> ELSE <<Shown([x EXCEPT !.t.p = 0])>>
DerefMax(x) ==
  IF x.t.p <= 1 THEN <<Shown(x)>>
  ELSE IF x.nilat = 0 THEN <<Shown([x EXCEPT !.t.p = 1])>>
  ELSE IF x.nilat = x.t.p THEN <<Shown([x EXCEPT !.t.p = 1, !.nilat = 1])>>
  ELSE << >>
Resolve(x) == IF x.t.b = "any" /\ x.t.p = 0 THEN (IF x.v = 0 THEN << >> ELSE <<[t |-> [b |-> "int", n |-> FALSE, p |-> 0], nilat |-> 0, v |-> x.v]>>) ELSE <<Shown(x)>>
ToBase(x) == IF x.t.p <= 1 /\ x.t.b \in Primitives THEN [Shown(x) EXCEPT !.t.n = FALSE] ELSE Shown(x)
IsNilX(x) == IF x.t.p > 0 THEN x.nilat = 1 ELSE x.t.b \in HasNil /\ x.v = 0
ValueFacts(x) ==
  [e |-> "", deref |-> Deref(x), max |-> DerefMax(x), resolved |-> Resolve(x), base |-> ToBase(x),
   isnil |-> IsNilX(x), nillable |-> x.t.p > 0 \/ x.t.b \in HasNil, prim |-> IsPrimitiveT(x.t),
   param |-> IF x.t.p <= 1 THEN <<[x.t EXCEPT !.p = 0]>> ELSE << >>]
\* of no value at all
NoValue == [e |-> "", isnil |-> TRUE, nillable |-> TRUE, param |-> << >>, resolved |-> << >>]

\* is a value, behind an interface if it is one, of a type?
AssertOk(x, t, must, res) ==
  res.e = (IF x # << >> /\ LET r == Resolve(x[1]) IN r # << >> /\ r[1].t = t THEN "" ELSE IF must THEN "panic" ELSE "err")

\* storing the value src through the pointers of dst
Class(b) == CASE b \in Numbers \cup {"uintptr"} -> "number" [] b \in {"complex64", "complex128"} -> "complex" [] OTHER -> b
Storable(x, src) == x.t.p > 0 /\ x.nilat = 0 /\ src.t.p = 0 /\ (Class(x.t.b) = Class(src.t.b) \/ (x.t.b = "any" /\ src.t.b = "int"))
\* (only the element of something can have an interface as its type: such a value can be set without a pointer)
StoreOk(x, src, res) == IF x.t.p = 0 /\ x.t.b = "any" THEN TRUE ELSE IF Storable(x, src) THEN res = [e |-> "", v |-> src.v] ELSE res = [e |-> "panic", v |-> IF x.nilat # 0 THEN 0 ELSE x.v]

\* the struct types that are looked at, by number, 0 is none: each field is its name, and the number of the struct that it
\* embeds, 0 if it embeds none
Structs == <<
  <<<<"A", 0>>>>, <<<<"A", 0>>, <<"B", 0>>, <<"b", 0>>>>, << >>,
  <<<<"S1", 1>>, <<"C", 0>>>>, <<<<"S1", 1>>, <<"A", 0>>>>, <<<<"S1", 1>>, <<"S2", 2>>>>, <<<<"D", 0>>, <<"S4", 4>>>>, <<<<"S6", 6>>, <<"S4", 4>>, <<"b", 0>>>> >>
Fields(s) == IF s = 0 THEN << >> ELSE Structs[s]
\* all fields by name, with their places; none at all if there are none
FieldsOk(s, res) == res = [e |-> "", names |-> [i \in DOMAIN Fields(s) |-> Fields(s)[i][1]], same |-> TRUE, isnil |-> Fields(s) = << >>]
\* the places of a name in structs that are all embedded equally deep, each given as <<struct, place>>; or else deeper
RECURSIVE Places(_, _)
Places(at, name) ==
  IF at = {} THEN {}
  ELSE LET here == UNION {{Append(x[2], i - 1) : i \in {j \in DOMAIN Fields(x[1]) : Fields(x[1])[j][1] = name}} : x \in at}
           deeper == UNION {{<<Fields(x[1])[i][2], Append(x[2], i - 1)>> : i \in {j \in DOMAIN Fields(x[1]) : Fields(x[1])[j][2] # 0}} : x \in at}
       IN IF here # {} THEN here ELSE Places(deeper, name)
\* a field is found if there is one place where it is least deep
FieldOk(s, name, res) ==
  LET p == Places({<<s, << >>>>}, name)
  IN IF Cardinality(p) = 1 THEN res = [e |-> "", path |-> CHOOSE x \in p : TRUE] ELSE res = [e |-> "panic"]
=============================================================================
