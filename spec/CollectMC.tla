----------------------------- MODULE CollectMC -----------------------------
(* All short slices through every function; all sequences of few changes of every kind of map *)
EXTENDS Collect, Json
CONSTANTS Mode, MaxLen, MaxOps, Vals
VARIABLES ops, cur
Init == CollectInit /\ ops = << >> /\ cur = << >>
Grow == ops = << >> /\ Len(cur) < MaxLen /\ \E v \in Vals : cur' = Append(cur, v) /\ UNCHANGED <<mp, ops>>
S(f) == [op |-> "slice", f |-> f, t |-> "int", in |-> cur]
Calls ==
  {S("copy"), S("of"), S("unique"), S("reverse")}
  \cup {[op |-> "slice", f |-> "add", t |-> t, in |-> cur, v |-> v] : v \in Vals, t \in {"int", "ptr"}}
  \cup {[op |-> "slice", f |-> "remove", t |-> t, in |-> cur, v |-> v, all |-> a] : v \in Vals, a \in BOOLEAN, t \in {"int", "string", "ptr", "uncomparable"}}
  \cup {[op |-> "slice", f |-> "index", t |-> "int", in |-> cur, i |-> i, default |-> d] : i \in (-MaxLen - 1)..(MaxLen + 1), d \in {<< >>, <<7>>, <<0>>}}
  \cup {[op |-> "slice", f |-> "sort", t |-> "int", by |-> b, in |-> cur] : b \in {"ordered", "by", "cmp"}}
  \cup {[op |-> "slice", f |-> "tomap", t |-> "int", by |-> b, in |-> cur] : b \in {"ordered", "by"}}
Nested(d) == CASE d = 1 -> cur [] d = 2 -> <<cur, << >>, cur>> [] OTHER -> <<<< >>, <<cur>>, <<<< >>, cur, cur>>>>
Do == /\ ops = << >> /\ UNCHANGED <<mp, cur>>
      /\ \/ \E e \in Calls : ops' = <<e>>
         \/ \E t \in {"int", "any", "named"}, d \in 1..3 : ops' = <<[op |-> "slice", f |-> "flatten", t |-> t, in |-> Nested(d), dims |-> d, what |-> "ok"]>>
         \/ \E w \in {"nil", "other", "type"} : ops' = <<[op |-> "slice", f |-> "flatten", t |-> "int", in |-> cur, dims |-> 1, what |-> w]>>

\* the kind of map is the first of cur
Kinds == {"map", "map2", "mapslice", "map2slice", "ordered"}
Paths(kind) == IF kind \in {"map2", "map2slice"} THEN {<<a, b>> : a \in {1, 2}, b \in {1, 2}} ELSE {<<a>> : a \in Vals}
Change(kind) ==
  CASE kind \in {"map", "map2"} -> {[op |-> "set", p |-> p, v |-> v] : p \in Paths(kind), v \in Vals} \cup {[op |-> "unset", p |-> p] : p \in Paths(kind)}
    [] OTHER -> {[op |-> "add", p |-> p, v |-> v] : p \in Paths(kind), v \in Vals}
                \cup {[op |-> "remove", p |-> p, v |-> v, all |-> a, un |-> u] : p \in Paths(kind), v \in Vals, a \in BOOLEAN, u \in {(Len(ops) % 2) = 0}}
                \cup (IF kind = "ordered" THEN {[op |-> "unset", p |-> p] : p \in Paths(kind)} ELSE {})
Read(kind) ==
  LET test == {[op |-> "test", p |-> p] : p \in Paths(kind)}
      index == {[op |-> "index", p |-> p, default |-> d] : p \in Paths(kind), d \in {<< >>, <<7>>}}
      list(s) == SetToSeq(s)
  IN  CASE kind = "map" -> list(test) \o list(index) \o <<[op |-> "keys"]>> \o list({[op |-> "sorted", by |-> b] : b \in {"ordered", "by", "cmp"}})
        [] kind = "map2" -> list(test)
        [] kind = "ordered" -> list({[op |-> "search", k |-> k] : k \in 0..4})
        [] OTHER -> << >>
Start == ops = << >> /\ \E kind \in Kinds, z \in BOOLEAN : ops' = <<[op |-> "open", kind |-> kind, nil |-> z]>> /\ UNCHANGED <<mp, cur>>
Step == ops # << >> /\ Len(ops) <= MaxOps /\ \E e \in Change(ops[1].kind) : ops' = Append(ops, e) /\ UNCHANGED <<mp, cur>>
Next == IF Mode = "slice" THEN Grow \/ Do ELSE Start \/ Step
Spec == Init /\ [][Next]_<<mp, ops, cur>>
Done == IF Mode = "slice" THEN ops # << >> ELSE Len(ops) = MaxOps + 1
Emit == Done => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> IF Mode = "slice" THEN ops ELSE ops \o Read(ops[1].kind)]))
=============================================================================
