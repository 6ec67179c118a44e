----------------------------- MODULE CombineMC -----------------------------
(* All small uses of every function *)
EXTENDS Combine, Json
CONSTANTS Mode, MaxLen
VARIABLES cur, call
Init == CombineInit /\ cur = << >> /\ call = << >>
Grow(S) == Len(cur) < MaxLen /\ \E x \in S : cur' = Append(cur, x) /\ UNCHANGED <<call, combined>>
Give(e) == call' = e /\ UNCHANGED <<cur, combined>>
Chars == CASE Mode = "camel" -> {95, 97, 66, 49, 233} [] Mode = "snake" -> {97, 98, 65, 66, 49} [] OTHER -> {}
Probe(i, b) == <<"probe", "p" \o ToString(i), b>>
Xs == <<-1, 0, 1, 2>>
FilterCalls ==
  \/ \E k \in {"lt", "le", "gt", "ge", "eq"}, v \in {-1, 0, 1} : Give([op |-> "filter", filter |-> <<k, v>>, xs |-> Xs])
  \/ \E k \in {"neg", "nonneg", "pos"} : Give([op |-> "filter", filter |-> <<k>>, xs |-> Xs])
  \/ \E vs \in {<< >>, <<0>>, <<2, -1>>} : Give([op |-> "filter", filter |-> <<"in", vs>>, xs |-> Xs])
\* cur is a sequence of answers of probes
Junctions ==
  LET ps == [i \in 1..Len(cur) |-> Probe(i, cur[i])]
  IN  \E k \in {"and", "or"}, j \in {"and", "or"}, n \in BOOLEAN, at \in 0..Len(cur), e \in BOOLEAN :
        LET in == <<j, SubSeq(ps, at + 1, Len(ps))>>
            l == (IF n THEN <<<<"not", <<"or", SubSeq(ps, 1, at)>>>>>> ELSE SubSeq(ps, 1, at)) \o (IF e THEN <<in>> ELSE << >>)
        IN  Give([op |-> "filter", filter |-> <<k, l>>, xs |-> <<0, 0>>])
Composes == \E n \in 1..10, many \in BOOLEAN : Give([op |-> "compose", fs |-> [i \in 1..n |-> <<(i % 3) + 1, i>>], x |-> 1, many |-> many])
Ternaries == \E b \in BOOLEAN, t \in 0..1, f \in {0, 2}, c \in BOOLEAN : Give([op |-> "ternary", b |-> b, t |-> t, f |-> f, call |-> c])
Suppliers == \E n \in 0..3, t \in {1, 2, 4}, of \in BOOLEAN, v \in 0..1, ty \in {"int", "string", "ptr", "any"} : Give([op |-> "supplier", calls |-> n, threads |-> t, of |-> of, v |-> v, t |-> ty])
Tries == \E t \in {"", "panic", "exit"}, hd \in {"", "panic"} : Give([op |-> "try", try |-> t, closers |-> cur, handler |-> hd])
Musts == \/ \E n \in 0..3, err \in 0..3 : Give([op |-> "must", n |-> n, err |-> err])
         \/ \E p \in {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>>} : Give([op |-> "pick", i |-> p[1], n |-> p[2]])
Fs == {"nillable", "isnil", "isnonnil", "isnilvalue", "mustnonnil", "mustnonzero"}
Nils == \/ \E f \in Fs, t \in {"int", "string", "struct", "ptr", "slice", "map", "func", "chan", "any", "error"}, v \in 0..3 :
             (t = "any" => v = 0) /\ (t = "error" /\ v # 0 => f = "isnilvalue") /\ Give([op |-> "nil", f |-> f, t |-> t, v |-> v])
        \/ \E v \in 0..3 : Give([op |-> "nil", f |-> "mustnonempty", t |-> "slice", v |-> v])
\* cur is a sequence of leaves
Leaves == {<<"int", 0>>, <<"int", 4>>, <<"string", 1>>, <<"nil">>}
Pairs == [i \in 1..Len(cur) |-> <<i, cur[i]>>]
Converts == \E t \in {"int", "string"}, must \in BOOLEAN :
  LET G(op, v) == Give([op |-> op, t |-> t, must |-> must, v |-> v]) IN
  \/ G("toslice", <<"list", cur>>) \/ G("toslice2", <<"list", cur>>) \/ G("toslice2", <<"list", <<<<"list", cur>>, <<"list", << >>>>>>>>)
  \/ G("tomap", <<"map", Pairs>>) \/ G("toslice", <<"map", Pairs>>) \/ G("tomap", <<"list", cur>>) \/ G("toslice2", <<"map", Pairs>>)
  \/ Len(cur) = 1 /\ (G("assert", cur[1]) \/ G("toslice", cur[1]) \/ G("toslice2", cur[1]) \/ G("tomap", cur[1]))
Next == call = << >> /\
  CASE Mode = "calls" -> FilterCalls \/ Composes \/ Ternaries \/ Suppliers \/ Musts \/ Nils
    [] Mode = "junctions" -> Grow(BOOLEAN) \/ Junctions
    [] Mode = "try" -> Grow({"", "panic"}) \/ Tries
    [] Mode = "convert" -> Grow(Leaves) \/ Converts
    [] Mode = "camel" -> Grow(Chars) \/ Give([op |-> "camel", s |-> cur])
    [] Mode = "snake" -> Grow(IF cur = << >> THEN {97, 98, 65} ELSE Chars) \/ Give([op |-> "snake", s |-> cur])
Spec == Init /\ [][Next]_<<combined, cur, call>>
\* names made of words of lower case letters come back
Words == [i \in 1..Len(cur) |-> CASE cur[i] = 66 -> 99 [] cur[i] = 233 -> 97 [] OTHER -> cur[i]]
WellFormed == cur # << >> /\ \A i \in 1..Len(cur) : (i = 1 \/ Words[i - 1] = 95) => Words[i] >= 97
RoundTrip == Mode = "camel" /\ WellFormed /\ Words[Len(cur)] # 95 => ToSnake(ToCamel(Words)) = Words
Emit == call # << >> => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<call>>]))
=============================================================================
