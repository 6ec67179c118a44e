------------------------------ MODULE UnionMC ------------------------------
(* All sequences of few changes of two variables of each kind; then everything is read *)
EXTENDS Union, Json
CONSTANTS MaxOps, Vals, Kinds, Types, Ways
VARIABLES ops
Init == UnionInit /\ ops = << >>
More(o) == ops' = Append(ops, o)
Regs == 1..2
Start == \E kind \in Kinds, t \in Types :
           (IsUnion(kind) => t = "int") /\ Open(kind, t, 2) /\ More([op |-> "open", kind |-> kind, t |-> t, n |-> 2, res |-> Ok])
WayOf == [none |-> [ptrs |-> 0, nilat |-> 0, addr |-> FALSE], var |-> [ptrs |-> 0, nilat |-> 0, addr |-> TRUE],
          one |-> [ptrs |-> 1, nilat |-> 0, addr |-> TRUE], nil1 |-> [ptrs |-> 1, nilat |-> 1, addr |-> TRUE],
          two |-> [ptrs |-> 2, nilat |-> 0, addr |-> TRUE], nil2o |-> [ptrs |-> 2, nilat |-> 1, addr |-> TRUE], nil2i |-> [ptrs |-> 2, nilat |-> 2, addr |-> TRUE],
          nil3m |-> [ptrs |-> 3, nilat |-> 2, addr |-> TRUE], nil3i |-> [ptrs |-> 3, nilat |-> 3, addr |-> TRUE], three |-> [ptrs |-> 3, nilat |-> 0, addr |-> TRUE]]
\* what a call that can go wrong gives
Out(bad, r) == IF bad THEN r ELSE Ok
NilPanic == Panic("Empty Maybe cannot return a value")
Change == \E i \in Regs :
  \/ LET j == 3 - i IN Copy(i, j, Ok) /\ More([op |-> "copy", at |-> i, from |-> j, res |-> Ok])
  \/ /\ IsUnion(un.kind)
     /\ \E w \in 1..Members[un.kind], v \in Vals, set \in BOOLEAN : Make(i, w, v, Ok) /\ More([op |-> "make", at |-> i, w |-> w, v |-> v, set |-> set, res |-> Ok])
  \/ /\ un.kind = "maybe"
     /\ \/ \E v \in Vals :
             \/ \E set \in BOOLEAN : OfMaybe(i, v, Ok) /\ More([op |-> "of", at |-> i, v |-> v, set |-> set, res |-> Ok])
             \/ LET r == Out(IsNil(v), NilPanic) IN MakePresent(i, v, r) /\ More([op |-> "present", at |-> i, v |-> v, res |-> r])
             \/ LET r == Out(un.reg[i].w = 1, [e |-> "present"]) IN SetOrError(i, v, r) /\ More([op |-> "setorerror", at |-> i, v |-> v, res |-> r])
             \/ \E u \in Vals : First(i, <<v, u>>, Ok) /\ More([op |-> "first", at |-> i, vs |-> <<v, u>>, res |-> Ok])
        \/ First(i, << >>, Ok) /\ More([op |-> "first", at |-> i, vs |-> << >>, res |-> Ok])
        \/ \E set \in BOOLEAN : MakeEmpty(i, Ok) /\ More([op |-> "empty", at |-> i, set |-> set, res |-> Ok])
  \/ /\ un.kind = "result"
     /\ \E v \in Vals, err \in {0, 3} :
        \/ err = 0 /\ OfResult(i, v, Ok) /\ More([op |-> "ofresult", at |-> i, v |-> v, res |-> Ok])
        \/ v = 0 /\ LET r == Out(err = 0, Panic("nil")) IN OfError(i, err, r) /\ More([op |-> "oferror", at |-> i, err |-> err, res |-> r])
        \/ LET r == Out(err # 0 /\ v # 0, Panic("both")) IN OfResultError(i, v, err, r) /\ More([op |-> "ofboth", at |-> i, v |-> v, err |-> err, res |-> r])
Reflect == un.kind = "maybe" /\ \E i \in Regs, n \in Ways : LET p == WayOf[n] IN
     \/ LET r == Out(~Settable(p), [e |-> "err"]) IN RSetEmpty(i, p, r) /\ More([op |-> "rsetempty", at |-> i, way |-> p, res |-> r])
     \/ \E v \in Vals, what \in {"ok", "wrong", "invalid"} :
          (what # "ok" => v = 0) /\ LET r == Out(~Settable(p) \/ what # "ok", [e |-> "err"])
          IN RSet(i, p, what, v, r) /\ More([op |-> "rset", at |-> i, way |-> p, what |-> what, v |-> v, res |-> r])
Next == IF ops = << >> THEN Start ELSE Len(ops) <= MaxOps /\ (Change \/ Reflect)
Spec == Init /\ [][Next]_<<un, ops>>

\* a Maybe with nil is empty; a result is zero if there is an error
Inv == un # NoUnion => \A i \in Regs : LET x == un.reg[i] IN
  /\ un.kind = "maybe" /\ x.w = 0 => x.v = 0
  /\ un.kind = "maybe" /\ Nillable(un.t) /\ x.v = 0 => x.w = 0
  /\ un.kind = "result" /\ x.w # 0 => x.v = 0
\* everything that can be read of a variable
Reads(i) == LET x == un.reg[i] IN
  IF IsUnion(un.kind) THEN
    <<[op |-> "which", at |-> i, res |-> [e |-> "", w |-> x.w, s |-> Letters[x.w]]]>>
    \o [w \in 1..Members[un.kind] |-> [op |-> "member", at |-> i, w |-> w, res |-> IF x.w = w THEN Val(x.v) ELSE Panic("Member " \o Letters[w] \o " is not available")]]
    \o (IF x.w <= 2 THEN <<[op |-> "string", at |-> i, res |-> [e |-> "", s |-> ShowV(x.w, x.v), empty |-> FALSE]]>> ELSE << >>)
  ELSE IF un.kind = "result" THEN
    <<[op |-> "result", at |-> i, res |-> [e |-> "", v |-> x.v, err |-> x.w, has |-> x.w = 0, haserr |-> x.w # 0]]>>
  ELSE
    <<[op |-> "has", at |-> i, res |-> [e |-> "", b |-> x.w = 1, n |-> x.w = 0]],
      [op |-> "get", at |-> i, res |-> IF x.w = 1 THEN Val(x.v) ELSE NilPanic],
      [op |-> "orelse", at |-> i, v |-> 2, res |-> Val(IF x.w = 1 THEN x.v ELSE 2)],
      [op |-> "orerror", at |-> i, err |-> 2, res |-> [e |-> "", v |-> x.v, err |-> IF x.w = 1 THEN 0 ELSE 2]]>>
    \o (LET ps == {WayOf[n] : n \in Ways}
            RECURSIVE List(_)
            List(s) == IF s = {} THEN << >> ELSE LET p == CHOOSE p \in s : TRUE IN
              <<[op |-> "rpresent", at |-> i, way |-> p, res |-> Is(Reaches(p) /\ x.w = 1)],
                [op |-> "rget", at |-> i, way |-> p, res |-> [e |-> "", valid |-> Reaches(p) /\ x.w = 1, v |-> IF Reaches(p) /\ x.w = 1 THEN x.v ELSE 0]],
                [op |-> "rtype", at |-> i, way |-> p, res |-> Is(TRUE)]>> \o List(s \ {p})
        IN List(ps))
Emit == Len(ops) = MaxOps + 1 => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops \o Reads(1) \o Reads(2)]))
=============================================================================
