------------------------------- MODULE ConvMC -------------------------------
(* All boundary values of all types through all conversions; all short texts *)
EXTENDS Conv, Json, TLC
CONSTANTS Mode, TextLen, Apis, Powers
VARIABLES pick, ops

Around(x) == {Sub(x, One), x, Add(x, One)}
Mags == UNION {Around(Pow2(n)) : n \in Powers} \cup {Big(10), Big(255), Add(T24, Two), Add(T53, Two), MaxFloat32, Sub(Pow2(128), Pow2(103)), Mul(Pow10(22), Big(3)), Pow10(30)}
Ints == {Zero} \cup Mags \cup {Neg(x) : x \in Mags}
Fracs == {<<One, Two>>, <<Big(3), Two>>, <<Add(T53, One), Two>>, <<Add(Pow2(31), One), Two>>, <<One, Pow2(149)>>, <<One, Pow2(150)>>, <<Big(3), Pow2(150)>>, <<Add(T24, One), Pow2(30)>>, <<Sub(T53, One), Pow2(60)>>,
          <<Add(T53, One), Pow2(60)>>, <<Add(T24, One), T24>>, <<Big(-5), Big(4)>>, <<One, Pow2(1074)>>, <<One, Pow2(1075)>>, <<Big(3), Pow2(151)>>, <<One, Pow2(151)>>}
Ratios == {<<One, Big(3)>>, <<Big(-2), Big(3)>>, <<One, Ten>>, <<Big(123456789), Pow10(20)>>, <<Sub(P64, One), Big(7)>>}
Huge == {<<Pow2(1023), One>>, <<Pow2(1024), One>>, <<Add(MaxFloat32, Pow2(80)), One>>}
Rats == {RatOf(x) : x \in Ints} \cup Fracs \cup Huge
Prec(x) == [x EXCEPT !.p = IF x.k # "num" \/ x.v[1] = Zero THEN 53 ELSE BitLen(Mag(x.v[1])) + 1]
Specials == {Special("inf"), Special("-inf")}
Texts == {InfText, MinusInfText, NanText, <<48, 48, 55>>, <<49, 46, 50, 53>>, <<45, 49, 101, 51>>, <<50, 53, 101, 45, 50>>, <<53, 47, 52>>, <<45, 54, 47, 52>>, <<53, 47, 48>>, <<48, 46, 49>>, <<49, 47, 51>>, <<97>>, <<32, 49>>, << >>}
           \cup {IntChars(x) : x \in Ints} \cup {IntChars(x) \o <<46, 48>> : x \in Ints} \cup {IntChars(x) \o <<46, 53>> : x \in Ints}
Values(t) ==
  CASE t \in IntTypes -> {Num(RatOf(x)) : x \in {y \in Ints : Fits(y, t)}}
    [] t \in Floats -> {Num(r) : r \in {q \in Rats : Represents(t, q)}} \cup Specials \cup {Special("nan")}
    [] t = "bigint" -> {Num(RatOf(x)) : x \in Ints}
    [] t = "bigrat" -> {Num(r) : r \in Rats \cup Ratios}
    [] t = "bigfloat" -> {Prec(Num(r)) : r \in Rats} \cup Specials
    [] t = "string" -> {Text(s) : s \in Texts}
\* the functions for single pairs of types, of which there are none between some
NoDirect(f, t) == f \in Bigs \cup {"string"} /\ (t = f \/ t \in {"int", "int8", "int16", "int32", "uint", "uint8", "uint16", "uint32"})
Fits2(api, f, t) == CASE api = "ops" -> t \in Bigs [] api = "reflect" -> f # t [] api = "direct" -> ~NoDirect(f, t) [] OTHER -> TRUE
Conv_(api, f, t, n, x) == [op |-> "conv", api |-> api, from |-> f, to |-> t, nfrom |-> n, nto |-> n, fresh |-> n, x |-> x]
TypeSeq == SetToSeq(Types)
Large(x) == Len(x.v[1]) + Len(x.v[2]) > 40           \* which takes TLC long
ApisOf(x) == IF Large(x) THEN <<"to">> \o SetToSeq(Apis \cap {"direct"}) ELSE SetToSeq(Apis)
All(f, x) == LET ApiSeq == ApisOf(x) IN FlattenSeq([i \in DOMAIN ApiSeq |-> LET ts == SelectSeq(TypeSeq, LAMBDA t : Fits2(ApiSeq[i], f, t)) IN [j \in DOMAIN ts |-> Conv_(ApiSeq[i], f, ts[j], (i + j) % 2 = 0, x)]])

TextTypes == <<"int8", "uint64", "bigint", "bigrat", "bigfloat", "float32", "float64", "string">>
AllText(x) == [j \in DOMAIN TextTypes |-> Conv_("to", "string", TextTypes[j], FALSE, x)] \o <<[op |-> "floattext", x |-> x]>>
Chars == {43, 45, 46, 47, 48, 53, 101}

Init == ConvInit /\ pick = << >> /\ ops = << >>
NextValue == IF pick = << >> THEN \E t \in Types : pick' = <<t>> /\ UNCHANGED ops
             ELSE ops = << >> /\ UNCHANGED pick /\ \E x \in Values(pick[1]) :
                    ops' = All(pick[1], x) \o (IF pick[1] = "bigrat" /\ ~Large(x) THEN <<[op |-> "norm", x |-> x]>> ELSE << >>)
NextText == ops = << >> /\ IF pick # << >> /\ pick[Len(pick)] = 0
            THEN ops' = AllText(Text(SubSeq(pick, 1, Len(pick) - 1))) /\ UNCHANGED pick
            ELSE /\ \/ Len(pick) < TextLen /\ \E ch \in Chars : pick' = Append(pick, ch)
                    \/ pick' = Append(pick, 0)
                 /\ UNCHANGED ops
Next == UNCHANGED convs /\ IF Mode = "values" THEN NextValue ELSE NextText
Spec == Init /\ [][Next]_<<convs, pick, ops>>
Emit == ops # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops]))

\* ---- laws of the specification itself: reading the text of a number yields the number, the types that represent a value
\* are ordered by width, and a dyadic is the value it is the form of
X == ops[1].x
Laws == ops # << >> =>
  IF X.k = "num" THEN
    LET d == Dyadic(X.v) IN
    /\ IsInt(X.v) => LET cs == IntChars(IntOf(X.v)) IN IntText(cs) /\ IntVal(cs) = IntOf(X.v) /\ DecText(cs).ok /\ RatEq(DecText(cs).v, X.v)
    /\ Represents("float32", X.v) => Represents("float64", X.v)
    /\ d.ok => RatEq(RAbs(X.v), RMul(<<Mk(1, d.odd), One>>, Two2(d.x))) /\ (d.odd # << >> => d.odd[1] % 2 = 1)
    /\ d.ok /\ d.odd # << >> => NatCmp(d.odd, Mag(Pow2(BitLen(d.odd)))) < 0 /\ NatCmp(d.odd, Mag(Pow2(BitLen(d.odd) - 1))) >= 0
    /\ RatEq(Lowest(X.v), X.v)
  ELSE TRUE
=============================================================================
