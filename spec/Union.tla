------------------------------- MODULE Union -------------------------------
(***************************************************************************)
(* Values of one of several types, values that may be missing, and results *)
(* or errors, kept in variables that can be copied: a copy is a value of   *)
(* its own.  Also the access to a missing or present value through         *)
(* reflection and pointers.                                                *)
(*                                                                         *)
(* A held value is a number; 0 is the zero value of its type, which for    *)
(* types with nil is nil.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLE un     \* [kind, t, reg], or << >> before the variables exist
NoUnion == << >>
UnionInit == un = NoUnion

Members == [two |-> 2, three |-> 3, four |-> 4]
IsUnion(kind) == kind \in DOMAIN Members
Letters == <<"T", "U", "V", "W">>
\* types with nil; a nil makes a Maybe empty
Nillable(t) == t \in {"ptr", "slice", "map", "func", "chan", "any", "error"}
IsNil(v) == Nillable(un.t) /\ v = 0

\* the zero value of every kind: the first member with its zero value; empty; the result zero
\* w: the member that is selected; 0 or 1 for empty or present; the number of the error, 0 for none
Zero(kind) == [w |-> IF IsUnion(kind) THEN 1 ELSE 0, v |-> 0]
Open(kind, t, n) == un = NoUnion /\ un' = [kind |-> kind, t |-> t, reg |-> [i \in 1..n |-> Zero(kind)]]

Store(i, x) == un' = [un EXCEPT !.reg[i] = x]
Same == UNCHANGED un
Ok == [e |-> ""]
Panic(why) == [e |-> "panic", why |-> why]
Val(v) == [e |-> "", v |-> v]
Is(b) == [e |-> "", b |-> b]
Text(s) == [e |-> "", s |-> s]
MaybeOf(v) == [w |-> IF IsNil(v) THEN 0 ELSE 1, v |-> v]
EmptyMaybe == [w |-> 0, v |-> 0]

Copy(i, from, res) == res = Ok /\ Store(i, un.reg[from])

\* ---- one of several types
Make(i, w, v, res) == res = Ok /\ Store(i, [w |-> w, v |-> v])     \* constructors and setters alike
Which(i, res) == res = [e |-> "", w |-> un.reg[i].w, s |-> Letters[un.reg[i].w]] /\ Same
Member(i, w, res) ==
  /\ res = (IF un.reg[i].w = w THEN Val(un.reg[i].v) ELSE Panic("Member " \o Letters[w] \o " is not available"))
  /\ Same
\* the texts of the values of the first two members, and of the types "int" and "string", are known
ShowV(w, v) == IF w = 1 THEN ToString(v) ELSE IF v = 0 THEN "" ELSE "s" \o ToString(v)
ShowT(v) == ShowV(IF un.t = "string" THEN 2 ELSE 1, v)

\* ---- a value that may be missing
OfMaybe(i, v, res) == res = Ok /\ Store(i, MaybeOf(v))             \* Of, Set
MakeEmpty(i, res) == res = Ok /\ Store(i, EmptyMaybe)              \* Empty, SetEmpty
MakePresent(i, v, res) ==
  IF IsNil(v) THEN res = Panic("Empty Maybe cannot return a value") /\ Same ELSE res = Ok /\ Store(i, MaybeOf(v))
First(i, vs, res) == res = Ok /\ Store(i, IF vs = << >> THEN EmptyMaybe ELSE MaybeOf(vs[1]))
SetOrError(i, v, res) ==
  IF un.reg[i].w = 1 THEN res = [e |-> "present"] /\ Same ELSE res = Ok /\ Store(i, MaybeOf(v))
Present(i, res) == res = [e |-> "", b |-> un.reg[i].w = 1, n |-> un.reg[i].w = 0] /\ Same
GetMaybe(i, res) == res = (IF un.reg[i].w = 1 THEN Val(un.reg[i].v) ELSE Panic("Empty Maybe cannot return a value")) /\ Same
OrElse(i, v, res) == res = Val(IF un.reg[i].w = 1 THEN un.reg[i].v ELSE v) /\ Same
OrError(i, err, res) == res = [e |-> "", v |-> IF un.reg[i].w = 1 THEN un.reg[i].v ELSE 0, err |-> IF un.reg[i].w = 1 THEN 0 ELSE err] /\ Same

\* ---- a result or an error
OfResult(i, v, res) == res = Ok /\ Store(i, [w |-> 0, v |-> v])
OfError(i, err, res) == IF err = 0 THEN res = Panic("nil") /\ Same ELSE res = Ok /\ Store(i, [w |-> err, v |-> 0])
OfResultError(i, v, err, res) ==
  IF err # 0 /\ v # 0 THEN res = Panic("both") /\ Same ELSE res = Ok /\ Store(i, [w |-> err, v |-> v])
Result(i, res) == res = [e |-> "", v |-> un.reg[i].v, err |-> un.reg[i].w, has |-> un.reg[i].w = 0, haserr |-> un.reg[i].w # 0] /\ Same

\* ---- texts: of the value that is held; of a missing value, some text that says Empty
String(i, res) ==
  LET x == un.reg[i] IN
  /\ Same /\ res.e = ""
  /\ IsUnion(un.kind) /\ x.w <= 2 => res.s = ShowV(x.w, x.v)
  /\ un.kind = "maybe" /\ x.w = 1 /\ un.t \in {"int", "string"} => res.s = ShowT(x.v)
  /\ un.kind = "maybe" => (res.empty = (x.w = 0 \/ res.s = "Empty"))
  /\ un.kind = "result" /\ x.w = 0 /\ un.t \in {"int", "string"} => res.s = ShowT(x.v)
  /\ un.kind = "result" /\ x.w # 0 => res.s = "e" \o ToString(x.w)

\* ---- through reflection: the variable is reached by the way p = [ptrs, nilat, addr]: a number of pointers, of which
\* one may be nil (counted from the outside; 0 for none); without pointers, whether it is the variable or a copy of it
Reaches(p) == p.nilat = 0
Settable(p) == Reaches(p) /\ (p.ptrs > 0 \/ p.addr)
RPresent(i, p, res) == res = Is(Reaches(p) /\ un.reg[i].w = 1) /\ Same
RGet(i, p, res) == res = (IF Reaches(p) /\ un.reg[i].w = 1 THEN [e |-> "", valid |-> TRUE, v |-> un.reg[i].v] ELSE [e |-> "", valid |-> FALSE, v |-> 0]) /\ Same
RType(i, p, res) == res = Is(TRUE) /\ Same
\* what: "ok" for a value of the type, else "wrong", "invalid"
RSet(i, p, what, v, res) ==
  IF Settable(p) /\ what = "ok" THEN res = Ok /\ Store(i, MaybeOf(v)) ELSE res = [e |-> "err"] /\ Same
RSetEmpty(i, p, res) == IF Settable(p) THEN res = Ok /\ Store(i, EmptyMaybe) ELSE res = [e |-> "err"] /\ Same
\* something else than a Maybe: no type, not present, no value, not settable
ROther(res) == res = [e |-> "", typ |-> FALSE, present |-> FALSE, valid |-> FALSE, set |-> "err", empty |-> "err"] /\ Same
=============================================================================
