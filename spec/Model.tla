------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The model of source code that a generator works on, and tuples: what is *)
(* constructed has exactly the parts it was constructed of, or the         *)
(* construction panics because a part is missing.                          *)
(*                                                                         *)
(* Types and values that others are made of are referred to by numbers,    *)
(* 0 for a missing one (nil).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLE model
ModelInit == model = 0
Modelled == UNCHANGED model

Scalars == <<"Bool", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Int", "Int8", "Int16", "Int32", "Int64", "Float", "Double", "String", "UUID",
             "Date", "DateTimeSecs", "DateTimeMillis", "DurationDays", "DurationSecs", "DurationMillis">>
Aggregates == <<"JSON", "Array", "Enum", "List", "Map", "Maybe", "Object", "Set">>
Levels == <<"Private", "Package", "PackageSub", "Public">>
Unary == <<"Inc", "Dec", "Neg", "BitNot">>
Binary == <<"Add", "Sub", "Mul", "Div", "Concat", "BitAnd", "BitOr", "BitXor", "BitShiftLeft", "BitShiftRight", "BitShiftRightArithmetic">>
Booleans == <<"Not", "And", "Or", "Lesser", "LesserEquals", "Equals", "GreaterEquals", "Greater", "Ternary">>

Panic == [e |-> "panic"]
\* the level of access is the first one given
Level(access) == IF access = << >> THEN "Private" ELSE access[1]

\* ---- types
\* which parts a type of each sort has: others are not there
HasValue(typ) == typ \in {"Array", "Enum", "List", "Map", "Maybe", "Object", "Set"}
HasKey(typ) == typ = "Map"
HasName(typ) == typ \in {"Enum", "Object"}
\* x = [typ, access, elem, key, name, names, bounds]
TypeDef(x) ==
  IF (HasValue(x.typ) /\ x.elem = 0) \/ (HasKey(x.typ) /\ x.key = 0) \/ (x.typ = "Enum" /\ x.names = << >>) THEN Panic
  ELSE [e |-> "", typ |-> x.typ, access |-> Level(x.access),
        bounds |-> IF x.typ = "Array" THEN x.bounds ELSE << >>,
        name |-> IF HasName(x.typ) THEN x.name ELSE "",
        names |-> IF HasName(x.typ) THEN x.names ELSE << >>,
        key |-> IF HasKey(x.typ) THEN x.key ELSE 0,
        elem |-> IF HasValue(x.typ) THEN x.elem ELSE 0]
\* every type is either scalar or aggregate, and differs from all others
Sort(typ) == [e |-> "", scalar |-> Contains(Scalars, typ), aggregate |-> Contains(Aggregates, typ), is |-> <<typ>>]

\* ---- values: a literal, a variable, or a constant
Value(x) ==
  IF x.of = 0 THEN Panic
  ELSE [e |-> "", kind |-> IF x.sort = "literal" THEN "LitVal" ELSE IF x.const THEN "VarConst" ELSE "VarVal", of |-> x.of, s |-> x.s,
        access |-> IF x.sort = "literal" \/ x.access = << >> THEN << >> ELSE <<x.access[1]>>]

\* ---- operators and expressions
Operator(o) == [e |-> "", unary |-> Contains(Unary, o), binary |-> Contains(Binary, o), boolean |-> Contains(Booleans, o), is |-> <<o>>]
Arity(o) == IF Contains(Unary, o) \/ o = "Not" THEN 1 ELSE IF o = "Ternary" THEN 3 ELSE 2
\* values beyond those that the operator needs are ignored
ExprOk(o, vals, res) ==
  LET n == Arity(o) IN
  IF Len(vals) < n \/ \E i \in 1..n : vals[i] = 0 THEN res = Panic
  ELSE res = [e |-> "", is |-> <<o>>, vals |-> [i \in 1..3 |-> IF i <= n THEN vals[i] ELSE 0]]

\* ---- tuples, of numbers, strings and whether there is an error
Labels == <<"T", "U", "V", "W">>
RECURSIVE Show(_, _)
Show(vs, i) == IF i > Len(vs) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o Labels[i] \o ": " \o vs[i] \o Show(vs, i + 1)
Tuple(vs) == [e |-> "", vals |-> vs, fields |-> vs, s |-> "{" \o Show(vs, 1) \o "}"]
=============================================================================
