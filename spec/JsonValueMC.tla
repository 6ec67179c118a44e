----------------------------- MODULE JsonValueMC -----------------------------
(* Mode "tree": all small trees of Go values, with every kind of leaf. Mode "path": all paths over the characters that matter. *)
EXTENDS JsonValue, Json, TLC
CONSTANTS Mode, PathLen, Depth
VARIABLE x

\* ---- trees
N(g, n) == [g |-> g, n |-> n]
Ints == UNION {{N(t, v) : v \in {Zero, One, MinOf(t), MaxOf(t)}} : t \in IntTypes} \cup {N("bigint", Pow2(200)), N("bigint", Neg(Pow2(70))), N("bigint", Zero), N("myint", Big(7))}
Fracs == {<<Zero, One>>, <<One, One>>, <<One, Big(8)>>, <<Neg(Big(3)), Two>>, <<Pow2(60), One>>, <<Big(13421773), Pow2(27)>>}
Floats == {N(t, v) : t \in {"float32", "float64", "bigrat"}, v \in Fracs}
          \cup {[g |-> "bigfloat", n |-> v, prec |-> p] : v \in Fracs, p \in {53, 64, 200}}
          \cup {N("bigrat", <<One, Big(3)>>), N("bigrat", <<Pow2(100), Big(7)>>), N("bigrat", <<Neg(One), Pow2(100)>>), N("bigrat", <<One, Pow10(30)>>), N("float64", <<Sub(Pow2(53), One), Pow2(60)>>)}
Numstrs == {[g |-> "numstr", s |-> s] : s \in {<<48>>, <<45, 48>>, <<48, 49>>, << >>, <<45>>, <<49, 46>>, <<46, 49>>, <<49, 46, 48, 48>>, <<49, 101, 57>>, <<49, 69, 43, 48>>, <<49, 101>>, <<32, 49>>, <<49, 10>>, <<120, 49>>, <<49, 120>>, <<43, 49>>, <<78, 97, 78>>, <<49, 44, 49>>, <<49, 101, 45, 51>>, <<49, 44, 48>>}}
Strs == {[g |-> g, s |-> s] : g \in {"string", "mystring"}, s \in {<< >>, <<49>>, <<110, 117, 108, 108>>, <<34, 92, 10, 233, 128512>>}}
Bads == {[g |-> "bad", kind |-> k] : k \in {"struct", "ints", "intmap", "ptr", "complex", "func", "uintptr", "bytes", "value", "intarray", "mybool", "mymap", "mapintkey"}}
NotNums == {[g |-> "notnum", kind |-> k] : k \in {"nan", "inf", "-inf", "nan32", "inf32", "-inf32", "infbig", "-infbig"}}
Nils == {[g |-> "nil", kind |-> k] : k \in {"nil", "bigint", "bigfloat", "bigrat"}}
Leaves == Ints \cup Floats \cup Numstrs \cup Strs \cup Bads \cup NotNums \cup Nils \cup {[g |-> "bool", b |-> b] : b \in BOOLEAN}
Few == {N("int8", One), [g |-> "string", s |-> <<97>>], [g |-> "nil", kind |-> "nil"], [g |-> "bad", kind |-> "struct"], [g |-> "numstr", s |-> <<120>>]}
Fns == {"slice", "map", "to", "mustto", "num", "mustnum", "scalar"}
K1 == <<97>>
K2 == <<97, 98>>
\* what can be put around a tree
Around(t, o) == {[g |-> "slice", vals |-> <<t>>], [g |-> "slice", vals |-> <<o, t>>], [g |-> "map", keys |-> <<K1>>, vals |-> <<t>>], [g |-> "map", keys |-> <<K1, K2>>, vals |-> <<o, t>>]}
                \cup IF Convertible(t) THEN {[g |-> "valueslice", vals |-> <<t>>], [g |-> "valuemap", keys |-> <<K1, K2>>, vals |-> <<t, [g |-> "bool", b |-> TRUE]>>]} ELSE {}

\* ---- paths
PathAlpha == {<<46>>, <<91>>, <<93>>, <<97>>, <<49>>, <<48>>}
PathPieces == {<<46, 97>>, <<46, 98, 32>>, <<91, 48, 93>>, <<91, 48, 49, 93>>, <<91, 57, 93>>,
               <<91, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55, 93>>,       \* 2^63 - 1
               <<91, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56, 93>>,       \* 2^63
               <<91, 45, 49, 93>>, <<46, 46>>, <<46, 233, 10>>, <<97>>, <<93>>}
A0 == VArr(<<VTrue, VArr(<<VFalse, VNull>>)>>)
Obj(k, v) == [key |-> k, v |-> v]
Targets == <<VNull, VStr(<<97>>), VArr(<< >>), A0, VObj(<<Obj(<<97>>, A0), Obj(<<98, 32>>, VObj(<<Obj(<<97>>, VTrue), Obj(<<233, 10>>, VFalse)>>))>>),
             VObj(<<Obj(<<97>>, VObj(<<Obj(<<97>>, VObj(<<Obj(<<97>>, VNull)>>)), Obj(<<97, 49>>, VTrue)>>)), Obj(<<49>>, VNull)>>),
             VArr(<<VObj(<<Obj(<<97>>, VArr(<<VNum(<<49>>)>>))>>), A0>>)>>

Init == ValueInit /\ x = (IF Mode = "tree" THEN <<[g |-> "start"]>> ELSE << >>)
Next == /\ UNCHANGED path
        /\ IF Mode = "tree"
           THEN \/ x[1].g = "start" /\ \E t \in Leaves \cup {[g |-> "slice", vals |-> << >>], [g |-> "map", keys |-> << >>, vals |-> << >>], [g |-> "valueslice", vals |-> << >>], [g |-> "valuemap", keys |-> << >>, vals |-> << >>]} : x' = <<t>>
                \/ x[1].g # "start" /\ Len(x) <= Depth /\ \E o \in Few : \E t \in Around(x[1], o) : x' = <<t>> \o x
           ELSE Len(x) < PathLen /\ \E c \in (IF Mode = "path" THEN PathAlpha ELSE PathPieces) : x' = Append(x, c)
Spec == Init /\ [][Next]_<<path, x>>

Blank == [v |-> << >>, any |-> << >>, e |-> ""]
TreeFns(t) == (IF t.g \in {"bad"} THEN {"slice", "map"}
               ELSE IF t.g \in {"mystring", "myint"} \/ (t.g = "nil" /\ t.kind = "nil") THEN {"slice", "map"}
               ELSE IF t.g = "nil" THEN {"slice", "map", "to", "mustto"}
               ELSE IF t.g \in NumberTypes \cup {"numstr", "notnum"} THEN {"slice", "map", "to", "mustto", "num", "mustnum"}
               ELSE IF t.g \in {"string", "bool"} THEN {"slice", "map", "to", "mustto", "scalar"}
               ELSE {"slice", "map", "to", "mustto", "scalar"})
RECURSIVE Cat(_)
Cat(ts) == IF ts = << >> THEN << >> ELSE Head(ts) \o Cat(Tail(ts))
Emit == IF Mode = "tree"
        THEN x[1].g # "start" => \A f \in TreeFns(x[1]) : (Len(x) > 1 => f \in {"slice", "scalar", "mustto"})
                                    => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<[op |-> "tovalue", fn |-> f, node |-> x[1], res |-> Blank]>>]))
        ELSE LET p == Steps(Cat(x), 1, << >>)
             IN  PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<[op |-> "path", p |-> Cat(x), res |-> IF p.ok THEN "" ELSE "badpath"]>>
                        \o (IF p.ok THEN [i \in DOMAIN Targets |-> [op |-> "lookup", v |-> Targets[i], res |-> Walk(Targets[i], 1, p.steps)]] ELSE << >>)]))

\* ---- properties of the design: looking up a path is looking up its parts one after the other; a text stands for itself
Compose == Mode # "tree" /\ Steps(Cat(x), 1, << >>).ok =>
  LET s == Steps(Cat(x), 1, << >>).steps IN
  \A i \in DOMAIN Targets : \A k \in 0..Len(s) :
     LET a == Walk(Targets[i], 1, SubSeq(s, 1, k))
         b == Walk(Targets[i], 1, s)
     IN  IF a.e = "" THEN b = Walk(a.v, 1, SubSeq(s, k + 1, Len(s))) ELSE b = a
TextsStand == \A t \in Numstrs : IsNumberText(t.s) => RatEq(NumberOf(t.s), NumberOf(t.s \o IF \E i \in DOMAIN t.s : t.s[i] \in {69, 101} THEN << >> ELSE <<101, 48, 48>>))
=============================================================================
