----------------------------- MODULE JsonWriteMC -----------------------------
(* Values to write: all strings of special characters in every place, small structures; and writers that fail anywhere.
   The specification accepts any text that denotes the value, so the text the real code writes is validated by it. *)
EXTENDS JsonWrite, Json, TLC, FiniteSets
CONSTANTS StrLen, Chars0, MaxBudget
VARIABLE cur

Seqs(n, S) == UNION {[1..i -> S] : i \in 0..n}
Special == {8, 9, 10, 12, 13, 34, 47, 92, 97, 117, 127, 8232, 55295, 57344, 65533, 128512, 1114111}
Leaves == {VNull, VFalse, VTrue, VNum(<<48>>), VNum(<<45, 49, 46, 53, 101, 43, 50>>), VStr(<< >>), VStr(<<34>>), VArr(<< >>), VObj(<< >>)}
Mem(k, v) == [key |-> k, v |-> v]
Obj(ms) == VObj(ms)
Keys == {<< >>, <<34>>, <<97>>, <<92, 98>>, <<10>>}
Lists == {VArr(t) : t \in Seqs(2, Leaves)} \cup {Obj(<<Mem(k, v)>>) : k \in Keys, v \in Leaves}
         \cup {Obj(PutMember(<<Mem(k, VTrue)>>, Mem(l, v))) : <<k, l>> \in {kl \in Keys \X Keys : kl[1] # kl[2]}, v \in {VNull, VStr(<<97>>)}}
Strings == {VStr(<<c>>) : c \in 0..Chars0} \cup {VStr(t) : t \in Seqs(StrLen, Special)} \cup {Obj(<<Mem(<<c>>, VNull)>>) : c \in 0..Chars0}

Init == WriteInit /\ cur = << >>
Pick1 == cur = << >> /\ \E v \in Leaves \cup Lists \cup Strings : cur' = <<v>>
Pick2 == Len(cur) = 1 /\ \E b \in (0..MaxBudget) \cup {-1} : cur' = Append(cur, b)
Pick3 == Len(cur) = 1 /\ cur[1] \in Lists /\ \E k \in Keys, m \in BOOLEAN : cur' = <<IF m THEN Obj(<<Mem(k, cur[1])>>) ELSE VArr(<<cur[1], cur[1]>>), -1>>
Next == (Pick1 \/ Pick2 \/ Pick3) /\ UNCHANGED writes
Spec == Init /\ [][Next]_<<writes, cur>>
Emit == Len(cur) = 2 => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<[op |-> "write", v |-> cur[1], budget |-> cur[2], fn |-> "any", res |-> << >>]>>]))

\* ---- properties of the design: a plain way to write values satisfies the specification, whatever the writer accepts
Esc(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 THEN <<92, 117, 48, 48, 48 + (c \div 16), IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>> ELSE <<c>>
RECURSIVE EscAll(_)
EscAll(cs) == IF cs = << >> THEN << >> ELSE Esc(Head(cs)) \o EscAll(Tail(cs))
RECURSIVE Plain(_, _), PlainElems(_, _, _), PlainMembers(_, _, _)
\* the text of the value at p of v, and the position after it
Plain(v, p) ==
  CASE v[p] = 0 -> [t |-> <<110, 117, 108, 108>>, n |-> p + 1]
    [] v[p] = 1 -> [t |-> <<102, 97, 108, 115, 101>>, n |-> p + 1]
    [] v[p] = 2 -> [t |-> <<116, 114, 117, 101>>, n |-> p + 1]
    [] v[p] = 3 -> [t |-> SubSeq(v, p + 2, p + 1 + v[p + 1]), n |-> p + 2 + v[p + 1]]
    [] v[p] = 4 -> [t |-> <<34>> \o EscAll(SubSeq(v, p + 2, p + 1 + v[p + 1])) \o <<34>>, n |-> p + 2 + v[p + 1]]
    [] v[p] = 5 -> LET r == PlainElems(v, p + 2, v[p + 1]) IN [t |-> <<91>> \o r.t \o <<93>>, n |-> r.n]
    [] v[p] = 6 -> LET r == PlainMembers(v, p + 2, v[p + 1]) IN [t |-> <<123>> \o r.t \o <<125>>, n |-> r.n]
PlainElems(v, p, k) ==
  IF k = 0 THEN [t |-> << >>, n |-> p]
  ELSE LET a == Plain(v, p)
           b == PlainElems(v, a.n, k - 1)
       IN  [t |-> a.t \o (IF k > 1 THEN <<44>> ELSE << >>) \o b.t, n |-> b.n]
PlainMembers(v, p, k) ==
  IF k = 0 THEN [t |-> << >>, n |-> p]
  ELSE LET q == p + 1 + v[p]
           a == Plain(v, q)
           b == PlainMembers(v, a.n, k - 1)
       IN  [t |-> <<34>> \o EscAll(SubSeq(v, p + 1, q - 1)) \o <<34, 58>> \o a.t \o (IF k > 1 THEN <<44>> ELSE << >>) \o b.t, n |-> b.n]
Faithful == cur # << >> =>
  LET t == Plain(cur[1], 1).t IN
  /\ Complete(t, cur[1])
  /\ \A i \in 0..(Len(t) - 1) : Begins(SubSeq(t, 1, i), cur[1]) /\ ~Complete(SubSeq(t, 1, i), cur[1])
=============================================================================
