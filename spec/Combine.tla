------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* The helpers for functions and values: filters, composition, suppliers,  *)
(* trying with closers, checks and conversions of values of any type,      *)
(* names.  A call is judged by a predicate on what it gives.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLE combined
CombineInit == combined = 0
Combined == UNCHANGED combined

\* ---- filters: <<"lt", v>> and so on, <<"not", f>>, <<"and", fs>>, <<"or", fs>>, and <<"probe", name, answer>>, which
\* notes that it is called.  What a filter says of x, and the probes it called: no more than are needed to know
Leaf(f, x) ==
  CASE f[1] = "lt" -> x < f[2] [] f[1] = "le" -> x <= f[2] [] f[1] = "gt" -> x > f[2] [] f[1] = "ge" -> x >= f[2]
    [] f[1] = "eq" -> x = f[2] [] f[1] = "in" -> \E i \in 1..Len(f[2]) : f[2][i] = x
    [] f[1] = "neg" -> x < 0 [] f[1] = "nonneg" -> x >= 0 [] f[1] = "pos" -> x > 0
RECURSIVE Says(_, _), SaysAll(_, _, _, _)
Says(f, x) ==
  CASE f[1] = "probe" -> [b |-> f[3], log |-> <<f[2]>>]
    [] f[1] = "not" -> LET r == Says(f[2], x) IN [b |-> ~r.b, log |-> r.log]
    [] f[1] = "and" -> IF f[2] = << >> THEN [b |-> TRUE, log |-> << >>] ELSE SaysAll(f[2], x, FALSE, 1)
    [] f[1] = "or" -> IF f[2] = << >> THEN [b |-> TRUE, log |-> << >>] ELSE SaysAll(f[2], x, TRUE, 1)
    [] OTHER -> [b |-> Leaf(f, x), log |-> << >>]
\* from the i-th on, until one says stop
SaysAll(fs, x, stop, i) ==
  LET r == Says(fs[i], x) IN
  IF r.b = stop \/ i = Len(fs) THEN r
  ELSE LET rest == SaysAll(fs, x, stop, i + 1) IN [b |-> rest.b, log |-> r.log \o rest.log]
\* the same filter for several values, one after the other
FilterOk(f, xs, res) == res.e = "" /\ res.out = [i \in 1..Len(xs) |-> Says(f, xs[i])]

\* ---- composing x -> a x + b of each pair <<a, b>>
RECURSIVE Through(_, _)
Through(fs, x) == IF fs = << >> THEN x ELSE Through(Tail(fs), fs[1][1] * x + fs[1][2])
ComposeOk(fs, x, res) == res.e = "" /\ res.v = Through(fs, x) /\ res.log = [i \in 1..Len(fs) |-> i]

\* ---- one of two values; one of two functions, of which that one is called (0 stands for a nil function)
TernaryOk(b, t, f, res) == res = [e |-> "", v |-> IF b THEN t ELSE f, log |-> << >>]
TernaryResultOk(b, t, f, res) == LET v == IF b THEN t ELSE f IN res = [e |-> "", v |-> v, log |-> IF v = 0 THEN << >> ELSE <<v>>]

\* ---- suppliers: of a value, or of the first value that a function gives, which is called once, also by several
\* threads at a time.  The function gives v, v + 1, ..., where 0 is
\* the zero of its type
SupplierOk(calls, threads, v, res) ==
  /\ res.e = "" /\ res.used = (IF calls = 0 THEN 0 ELSE 1)
  /\ res.out = [i \in 1..(calls * threads) |-> v]

\* ---- trying: the function is called, then all closers, the last one first; if one of them panics, then at last the
\* handler is called with the last panic.  Each ends with "", "panic", or "exit" (the thread ends, which is no panic)
TryLog(try, closers) == <<"try">> \o Reverse([i \in 1..Len(closers) |-> "c" \o ToString(i)])
LastPanic(try, closers) ==
  LET P == {i \in 1..Len(closers) : closers[i] = "panic"} IN
  IF P # {} THEN "c" \o ToString(CHOOSE i \in P : \A j \in P : i <= j) ELSE IF try = "panic" THEN "try" ELSE ""
\* handler: "" or "panic", which is the caller's problem
TryOk(try, closers, handler, res) ==
  LET p == LastPanic(try, closers) IN
  /\ res.log = TryLog(try, closers) \o (IF p = "" THEN << >> ELSE <<"handle " \o p>>)
  /\ res.e = (IF p # "" /\ handler = "panic" THEN "handler" ELSE IF try = "exit" THEN "exit" ELSE "")

\* ---- values of any type: <<"int", n>>, <<"string", n>>, <<"list", values>>, <<"map", pairs of a number and a value>>
\* a type T is "int" or "string".  A nil, <<"nil">>, is of neither
AssertOk(T, v, must, res) ==
  IF v[1] = T THEN res = [e |-> "", v |-> v[2]] ELSE res = (IF must THEN [e |-> "panic", v |-> 0] ELSE [e |-> "err", v |-> 0])
All(T, l) == \A i \in 1..Len(l) : l[i][1] = T
Seconds(l) == [i \in 1..Len(l) |-> l[i][2]]
Fails(must, res) == res.e = (IF must THEN "panic" ELSE "err") /\ res.out = << >>
ToSliceOk(T, v, must, res) ==
  IF v[1] # "list" THEN Fails(must, res) ELSE IF ~All(T, v[2]) THEN Fails(must, res) ELSE res.e = "" /\ res.out = Seconds(v[2])
ToSlice2Ok(T, v, must, res) ==
  IF v[1] # "list" THEN Fails(must, res)
  ELSE IF ~All("list", v[2]) THEN Fails(must, res)
  ELSE IF \E i \in 1..Len(v[2]) : ~All(T, v[2][i][2]) THEN Fails(must, res)
  ELSE res.e = "" /\ res.out = [i \in 1..Len(v[2]) |-> Seconds(v[2][i][2])]
ToMapOk(T, v, must, res) ==
  IF v[1] # "map" THEN Fails(must, res)
  ELSE IF \E i \in 1..Len(v[2]) : v[2][i][2][1] # T THEN Fails(must, res)
  ELSE res.e = "" /\ Len(res.out) = Len(v[2]) /\ ToSet(res.out) = {<<v[2][i][1], v[2][i][2][2]>> : i \in 1..Len(v[2])}

\* ---- nil and zero of a value v of a type t: 0 is the zero value; an "any" of 1 holds a zero that is not nil, of 2 a nil pointer
HasNil(t) == t \in {"ptr", "slice", "map", "func", "chan"}
IsNilV(t, v) == (HasNil(t) \/ t \in {"any", "error"}) /\ v = 0
NilOk(f, t, v, res) ==
  CASE f = "nillable" -> res = [e |-> "", b |-> HasNil(t)]
    [] f = "isnil" -> res = (IF HasNil(t) THEN [e |-> "", b |-> v = 0] ELSE [e |-> "panic", b |-> FALSE])
    [] f = "isnonnil" -> res = (IF HasNil(t) THEN [e |-> "", b |-> v # 0] ELSE [e |-> "panic", b |-> FALSE])
    [] f = "isnilvalue" -> res = [e |-> "", b |-> IsNilV(t, v)]
    \* returns the value, or panics
    [] f = "mustnonnil" -> res = (IF HasNil(t) /\ v # 0 THEN [e |-> "", b |-> TRUE] ELSE [e |-> "panic", b |-> FALSE])
    [] f = "mustnonzero" -> res = (IF v # 0 THEN [e |-> "", b |-> TRUE] ELSE [e |-> "panic", b |-> FALSE])
    [] f = "mustnonempty" -> res = (IF v >= 2 THEN [e |-> "", b |-> TRUE] ELSE [e |-> "panic", b |-> FALSE])   \* a slice of v - 1
\* what panics with an error and else gives the values unchanged; which of several values
MustOk(n, err, res) == res = (IF err = 0 THEN [e |-> "", out |-> [i \in 1..n |-> i]] ELSE [e |-> "panic", out |-> <<err>>])
PickOk(i, n, res) == res = [e |-> "", v |-> i]

\* ---- names, as sequences of characters.  CamelCase starts every word with an upper case letter, snake_case puts _
\* between words, and what follows the first letter of a word stays as it is
Upper(ch) == IF ch >= 97 /\ ch <= 122 THEN ch - 32 ELSE IF ch = 233 THEN 201 ELSE ch
Lower(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE IF ch = 201 THEN 233 ELSE ch
Capital(w) == IF w = << >> THEN w ELSE <<Upper(w[1])>> \o Tail(w)
\* the words between _
RECURSIVE SplitAt(_, _)
SplitAt(s, i) == IF i > Len(s) THEN <<s>> ELSE IF s[i] = 95 THEN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), 1) ELSE SplitAt(s, i + 1)
ToCamel(s) == FlattenSeq([i \in 1..Len(SplitAt(s, 1)) |-> Capital(SplitAt(s, 1)[i])])
IsUpperC(ch) == ch >= 65 /\ ch <= 90
RECURSIVE ToSnake2(_, _)
ToSnake2(s, i) == IF i > Len(s) THEN << >> ELSE (IF i = 1 THEN <<Lower(s[i])>> ELSE IF IsUpperC(s[i]) THEN <<95, Lower(s[i])>> ELSE <<s[i]>>) \o ToSnake2(s, i + 1)
ToSnake(s) == ToSnake2(s, 1)
CamelOk(s, res) == res = [e |-> "", s |-> ToCamel(s)]
SnakeOk(s, res) == res = [e |-> "", s |-> ToSnake(s)]
=============================================================================
