------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Streams (package stream): a composition of transforms is made once, and *)
(* then applied to any number of source iterators.  Every application is a *)
(* machine of its own, in which a Next on the last stage pulls elements    *)
(* through the stages one at a time; the eager stages (reverse, the sorts) *)
(* drain what is before them when they are applied.                        *)
(*                                                                         *)
(* All values are sequences of integers: an int is <<n>>, a bool <<0>> or  *)
(* <<1>>, a pair <<k, v>>, a slice its elements, a map its entries         *)
(* <<k1, v1, k2, v2, ...>> in increasing order of the keys.                *)
(*                                                                         *)
(* A stage is [k |-> kind, p |-> parameters].  A source is a sequence of   *)
(* [v |-> int, e |-> error], where e = "" means no error; it ends with     *)
(* "EOI".  What can be seen of a call is the value and the error, and its  *)
(* effects: how often the source has been called (c), and the calls of the *)
(* functions the client passed to the stages, in order (cb).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES stages,   \* the composition
          machs,    \* the applications: sequence of [script, p]
          slc       \* contents of the slice passed to a final "intoslice" stage: shared by all applications

svars == <<stages, machs, slc>>

St0 == [err |-> "", n |-> 0, done |-> FALSE, q |-> << >>, a |-> {}, b |-> {}]
P0(nst) == [calls |-> 0, serr |-> "", st |-> [i \in 1..nst |-> St0], cb |-> << >>, v |-> << >>, e |-> "", slc |-> << >>]

Mod(x, m) == x % m    \* in TLA+ the result is in 0..m-1 for every x
Hit(s, x) == Mod(x, s.p[1]) = s.p[2]
Bit(b) == IF b THEN <<1>> ELSE <<0>>
Order(seq, less(_, _)) == SortSeq(seq, less)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* pairs as a map: the last pair of a key determines its value
MapOf(pairs) ==
  LET Ks == {pairs[i][1] : i \in DOMAIN pairs}
      LastOf(x) == LET I == {i \in DOMAIN pairs : pairs[i][1] = x} IN pairs[CHOOSE i \in I : \A j \in I : j <= i][2]
      ks == SetToSortSeq(Ks, LAMBDA x, y : x < y)
  IN  FoldLeft(LAMBDA acc, x : acc \o <<x, LastOf(x)>>, << >>, ks)

-----------------------------------------------------------------------------
\* The elementwise part: what a stage makes of one element, for the stages where it does not depend on others
MapFn(s, v) ==
  CASE s.k = "map"      -> <<s.p[1] * v[1] + s.p[2]>>
    [] s.k = "maperr"   -> <<v[1] + s.p[2]>>
    [] s.k = "maperrs"  -> v
    [] s.k = "mapslice" -> [i \in 1..Mod(v[1], s.p[1]) |-> v[1] + i]
    [] s.k = "mappair"  -> <<Mod(v[1], s.p[1]), v[1]>>
    [] s.k = "onemap"   -> IF v[1] = 0 THEN << >> ELSE v
    [] s.k = "unpair"   -> <<10 * v[1] + v[2]>>
    [] s.k = "maplen"   -> <<Len(v)>>
    [] s.k = "mapbool"  -> <<v[1]>>
    [] s.k = "maplenmap" -> <<Len(v) \div 2>>
    [] s.k = "abs"      -> <<IF v[1] < 0 THEN -v[1] ELSE v[1]>>
\* mappings that can fail: with one error, or with an error that tells the element
Failing == {"maperr", "maperrs"}
Fails(s, v) == IF s.k = "maperr" THEN v[1] = s.p[1] ELSE Mod(v[1], s.p[1]) = s.p[2]
FailsWith(s, v) == IF s.k = "maperr" THEN "bad" ELSE <<"bad", "e1", "e2">>[1 + Mod(v[1], 3)]
Mappers == {"map", "maperr", "maperrs", "mapslice", "mappair", "onemap", "unpair", "maplen", "mapbool", "maplenmap", "abs"}

\* folds: how the accumulator takes on an element
FoldFn(s, acc, v) ==
  CASE s.k = "reduce"    -> <<Mod(2 * acc[1] - v[1], 10007)>>     \* does not grow beyond the integers of TLC
    [] s.k = "reduceto"  -> <<Mod(acc[1] * 2 + v[1], 10007)>>
    [] s.k = "foldslice" -> Append(acc, v[1])
    [] s.k = "min"       -> <<Min2(acc[1], v[1])>>
    [] s.k = "max"       -> <<Max2(acc[1], v[1])>>
    [] s.k = "sum"       -> <<acc[1] + v[1]>>
    [] s.k = "count"     -> <<acc[1] + 1>>
\* reductions without an identity either start with the first element, or with the zero value of the result
StartsWithFirst == {"reduce", "min", "max", "sum"}
Folds == {"reduce", "reduceto", "foldslice", "min", "max", "sum", "count"}
HasIdentity(s) == (s.k \in {"reduce", "reduceto", "foldslice"} /\ s.p # << >>) \/ s.k = "count"
Identity(s) == IF s.k = "count" THEN <<0>> ELSE s.p
ZeroOf(s) == IF s.k = "foldslice" THEN << >> ELSE <<0>>

Bools == {"all", "any", "none", "tobool"}
\* [predicate result to stop at, result for no elements, result if stopped, result if not stopped]
BoolStop(s) == CASE s.k = "all"  -> FALSE [] s.k = "any" -> TRUE [] s.k = "none" -> FALSE [] s.k = "tobool" -> s.p[4] = 1
BoolId(s)   == CASE s.k = "all"  -> TRUE  [] s.k = "any" -> FALSE [] s.k = "none" -> TRUE [] s.k = "tobool" -> s.p[3] = 1
Pred(s, v)  == IF s.k = "none" THEN ~Hit(s, v[1]) ELSE Hit(s, v[1])

Eager == {"reverse", "sort", "sortby"}
Arranged(s, seq) ==
  CASE s.k = "reverse" -> Reverse(seq)
    [] s.k = "sort"    -> Order(seq, LAMBDA a, b : a[1] < b[1])
    [] s.k = "sortby"  -> Order(seq, LAMBDA a, b : a[1] > b[1])

\* stages whose function the client passes and whose calls are seen
Logged == {"map", "maperr", "maperrs", "mapslice", "mappair", "onemap", "unpair", "maplen", "mapbool", "maplenmap",
           "filter", "reduce", "reduceto", "foldslice", "all", "any", "none", "tobool", "peek", "gen"}
Called(s, i, P, v) == IF s.k \in Logged THEN [P EXCEPT !.cb = P.cb \o <<i>> \o v] ELSE P

-----------------------------------------------------------------------------
\* The pull machine.  Pull yields P with .v and .e set.  hint is the value that was observed: it settles in which order the
\* entries of a map are delivered, which is not specified.
SourceNext(script, P) ==
  IF P.serr # "" THEN [P EXCEPT !.v = << >>, !.e = P.serr]
  ELSE LET n == P.calls + 1
           r == IF n <= Len(script) THEN script[n] ELSE [v |-> 0, e |-> "EOI"]
       IN  IF r.e = "" THEN [P EXCEPT !.calls = n, !.v = <<r.v>>, !.e = ""]
           ELSE [P EXCEPT !.calls = n, !.serr = r.e, !.v = << >>, !.e = r.e]

RECURSIVE Pull(_, _, _, _, _), Raw(_, _, _, _, _), FilterLoop(_, _, _, _, _), FoldLoop(_, _, _, _, _, _),
          BoolLoop(_, _, _, _, _), SliceLoop(_, _, _, _, _, _), IntoLoop(_, _, _, _, _, _), ExpandLoop(_, _, _, _, _), SkipLoop(_, _, _, _, _)

\* every stage is an iterator: once it returned an error it keeps on doing so, without doing anything else
Pull(ss, script, P, i, hint) ==
  IF i = 0 THEN SourceNext(script, P)
  ELSE IF P.st[i].err # "" THEN [P EXCEPT !.v = << >>, !.e = P.st[i].err]
  ELSE LET Q == Raw(ss, script, P, i, hint)
       IN  IF Q.e \in {"", "panic"} THEN Q ELSE [Q EXCEPT !.st[i].err = Q.e, !.v = << >>]

End(P) == [P EXCEPT !.v = << >>, !.e = "EOI"]
Val(P, v) == [P EXCEPT !.v = v, !.e = ""]

FilterLoop(ss, script, P, i, hint) ==
  LET s == ss[i]
      Q == Pull(ss, script, P, i - 1, hint)
  IN  IF Q.e # "" THEN Q
      ELSE LET x == Q.v[1]
               R == Called(s, i, Q, Q.v)
           IN  CASE s.k = "filter" ->
                      IF Hit(s, x) THEN R ELSE FilterLoop(ss, script, R, i, hint)
                 [] s.k = "distinct" ->
                      IF x \in R.st[i].a THEN FilterLoop(ss, script, R, i, hint) ELSE [R EXCEPT !.st[i].a = @ \cup {x}]
                 [] s.k = "duplicate" ->
                      IF x \in R.st[i].b THEN FilterLoop(ss, script, R, i, hint)
                      ELSE IF x \in R.st[i].a THEN [R EXCEPT !.st[i].b = @ \cup {x}]
                      ELSE FilterLoop(ss, script, [R EXCEPT !.st[i].a = @ \cup {x}], i, hint)

FoldLoop(ss, script, P, i, acc, has) ==
  LET s == ss[i]
      Q == Pull(ss, script, P, i - 1, << >>)
  IN  IF Q.e = "EOI" THEN (IF has THEN Val(Q, acc) ELSE Q)
      ELSE IF Q.e # "" THEN Q
      ELSE IF has THEN FoldLoop(ss, script, Called(s, i, Q, Q.v), i, FoldFn(s, acc, Q.v), TRUE)
      ELSE IF s.k \in StartsWithFirst THEN FoldLoop(ss, script, Q, i, Q.v, TRUE)
      ELSE FoldLoop(ss, script, Called(s, i, Q, Q.v), i, FoldFn(s, ZeroOf(s), Q.v), TRUE)

BoolLoop(ss, script, P, i, res) ==
  LET s == ss[i]
      Q == Pull(ss, script, P, i - 1, << >>)
  IN  IF Q.e = "EOI" THEN Val(Q, Bit(res))
      ELSE IF Q.e # "" THEN Q
      ELSE LET R == Called(s, i, Q, Q.v)
               b == Pred(s, Q.v)
           IN  IF b = BoolStop(s) THEN Val(R, Bit(b)) ELSE BoolLoop(ss, script, R, i, b)

\* collects everything: yields P with .v the sequence of elements if .e = ""
SliceLoop(ss, script, P, i, acc, hint) ==
  LET Q == Pull(ss, script, P, i - 1, hint)
  IN  IF Q.e = "EOI" THEN Val(Q, acc)
      ELSE IF Q.e # "" THEN Q
      ELSE SliceLoop(ss, script, Q, i, Append(acc, Q.v), hint)

\* writes into the slice the client passed: zeroes it after an error, panics if it is too short
IntoLoop(ss, script, P, i, idx, hint) ==
  LET Q == Pull(ss, script, P, i - 1, hint)
  IN  IF Q.e = "EOI" THEN Val(Q, Q.slc)
      ELSE IF Q.e # "" THEN [Q EXCEPT !.slc = [j \in DOMAIN Q.slc |-> 0]]
      ELSE IF idx > Len(Q.slc) THEN [Q EXCEPT !.v = << >>, !.e = "panic"]
      ELSE IntoLoop(ss, script, [Q EXCEPT !.slc[idx] = Q.v[1]], i, idx + 1, hint)

\* next element of the current slice or map, else go on to the next slice or map
ExpandLoop(ss, script, P, i, hint) ==
  LET s == ss[i]
      q == P.st[i].q
  IN  IF q # << >>
      THEN IF s.k = "expand" THEN [Val(P, <<q[1]>>) EXCEPT !.st[i].q = Tail(q)]
           ELSE LET ks == {j \in DOMAIN q : j % 2 = 1}
                    want == {j \in ks : <<q[j], q[j + 1]>> = hint}
                    j == IF want # {} THEN CHOOSE x \in want : TRUE ELSE CHOOSE x \in ks : \A y \in ks : x <= y
                IN  [Val(P, <<q[j], q[j + 1]>>) EXCEPT !.st[i].q = SubSeq(q, 1, j - 1) \o SubSeq(q, j + 2, Len(q))]
      ELSE LET Q == Pull(ss, script, P, i - 1, hint)
           IN  IF Q.e # "" THEN Q ELSE ExpandLoop(ss, script, [Q EXCEPT !.st[i].q = Q.v], i, hint)

SkipLoop(ss, script, P, i, hint) ==
  LET Q == Pull(ss, script, P, i - 1, hint)
  IN  IF P.st[i].n >= ss[i].p[1] \/ Q.e # "" THEN Q ELSE SkipLoop(ss, script, [Q EXCEPT !.st[i].n = @ + 1], i, hint)

Raw(ss, script, P, i, hint) ==
  LET s == ss[i] IN
  CASE s.k \in Mappers ->
         LET Q == Pull(ss, script, P, i - 1, hint)
         IN  IF Q.e # "" THEN Q
             ELSE LET R == Called(s, i, Q, Q.v)
                  IN  IF s.k \in Failing /\ Fails(s, Q.v) THEN [R EXCEPT !.v = << >>, !.e = FailsWith(s, Q.v)] ELSE Val(R, MapFn(s, Q.v))
    [] s.k = "gen" ->
         LET Q == Pull(ss, script, P, i - 1, hint)
         IN  IF Q.e # "" THEN Q
             ELSE LET R == Called(s, i, Q, Q.v) IN [Val(R, <<Q.v[1] + 100 * (P.st[i].n + 1)>>) EXCEPT !.st[i].n = @ + 1]
    [] s.k = "peek" ->
         LET Q == Pull(ss, script, P, i - 1, hint) IN IF Q.e # "" THEN Q ELSE Called(s, i, Q, Q.v)
    [] s.k \in {"filter", "distinct", "duplicate"} -> FilterLoop(ss, script, P, i, hint)
    [] s.k = "skip" -> SkipLoop(ss, script, P, i, hint)
    [] s.k = "limit" ->
         IF P.st[i].n >= s.p[1] THEN End(P)
         ELSE LET Q == Pull(ss, script, P, i - 1, hint) IN IF Q.e # "" THEN Q ELSE [Q EXCEPT !.st[i].n = @ + 1]
    [] s.k \in {"expand", "expandmap"} -> ExpandLoop(ss, script, P, i, hint)
    [] s.k \in Eager ->
         LET q == P.st[i].q IN IF q = << >> THEN End(P) ELSE [Val(P, q[1]) EXCEPT !.st[i].q = Tail(q)]
    [] s.k \in Folds \cup Bools \cup {"toslice", "tomap", "intoslice"} ->
         IF P.st[i].done THEN End(P)
         ELSE LET Q == [P EXCEPT !.st[i].done = TRUE] IN
              CASE s.k \in Folds -> FoldLoop(ss, script, Q, i, IF HasIdentity(s) THEN Identity(s) ELSE << >>, HasIdentity(s))
                [] s.k \in Bools -> BoolLoop(ss, script, Q, i, BoolId(s))
                [] s.k = "toslice" -> LET R == SliceLoop(ss, script, Q, i, << >>, << >>)
                                      IN IF R.e = "" THEN Val(R, [j \in DOMAIN R.v |-> R.v[j][1]]) ELSE R
                [] s.k = "tomap" -> LET R == SliceLoop(ss, script, Q, i, << >>, << >>) IN IF R.e = "" THEN Val(R, MapOf(R.v)) ELSE R
                [] s.k = "intoslice" -> IntoLoop(ss, script, Q, i, 1, << >>)

\* applying the composition: the eager stages drain what is before them, first to last
RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(ss, script, P, i) ==
  IF i > Len(ss) THEN [P EXCEPT !.v = << >>, !.e = ""]
  ELSE IF ss[i].k \notin Eager THEN ApplyFrom(ss, script, P, i + 1)
  ELSE LET Q == SliceLoop(ss, script, P, i, << >>, << >>)
       IN  IF Q.e = "" THEN ApplyFrom(ss, script, [Q EXCEPT !.st[i].q = Arranged(ss[i], Q.v)], i + 1)
           ELSE ApplyFrom(ss, script, [Q EXCEPT !.st[i].err = Q.e], i + 1)

Clean(P) == [P EXCEPT !.cb = << >>, !.v = << >>, !.e = "", !.slc = << >>]
Eff(P) == [c |-> P.calls, cb |-> P.cb]

-----------------------------------------------------------------------------
StreamInit == stages = << >> /\ machs = << >> /\ slc = << >>
StreamReset == stages' = << >> /\ machs' = << >> /\ slc' = << >>

SlcOf(ss) == IF ss # << >> /\ ss[Len(ss)].k = "intoslice" THEN [j \in 1..ss[Len(ss)].p[1] |-> 0] ELSE << >>

Compose(ss) == stages' = ss /\ machs' = << >> /\ slc' = SlcOf(ss)

Applied(script) == ApplyFrom(stages, script, [P0(Len(stages)) EXCEPT !.slc = slc], 1)
Apply(script, eff) ==
  LET P == Applied(script) IN
  /\ eff = Eff(P)
  /\ machs' = Append(machs, [script |-> script, p |-> Clean(P)])
  /\ slc' = P.slc /\ UNCHANGED stages

Nexted(i, hint) == Pull(stages, machs[i].script, [machs[i].p EXCEPT !.slc = slc], Len(stages), hint)
NextRes(P) == [v |-> IF P.e = "" THEN P.v ELSE << >>, e |-> P.e]
Next_(i, res, eff, hint) ==
  LET P == Nexted(i, hint) IN
  /\ res = NextRes(P) /\ eff = Eff(P)
  /\ machs' = [machs EXCEPT ![i].p = Clean(P)]
  /\ slc' = P.slc /\ UNCHANGED stages

\* the contents of the slice passed to ReduceIntoSlice
Contents(res) == res = [v |-> slc, e |-> ""] /\ UNCHANGED svars

-----------------------------------------------------------------------------
\* What streams mean, independent of how they are pulled: every stage is a function of the list of elements before it and
\* the error that list ends with.
Lst(vs, e) == [vs |-> vs, e |-> e]
Trunc(l, i, e) == Lst(SubSeq(l.vs, 1, i - 1), e)
FirstIdx(vs, ok(_)) == LET I == {i \in DOMAIN vs : ok(vs[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Means(s, l) ==
  CASE s.k \in Failing ->
         LET b == FirstIdx(l.vs, LAMBDA v : Fails(s, v))
             m == IF b = 0 THEN l ELSE Trunc(l, b, FailsWith(s, l.vs[b]))
         IN  Lst([i \in DOMAIN m.vs |-> MapFn(s, m.vs[i])], m.e)
    [] s.k \in Mappers \ Failing -> Lst([i \in DOMAIN l.vs |-> MapFn(s, l.vs[i])], l.e)
    [] s.k = "gen" -> Lst([i \in DOMAIN l.vs |-> <<l.vs[i][1] + 100 * i>>], l.e)
    [] s.k = "peek" -> l
    [] s.k = "filter" -> Lst(SelectSeq(l.vs, LAMBDA v : Hit(s, v[1])), l.e)
    [] s.k = "distinct" -> LET I == {i \in DOMAIN l.vs : \A j \in 1..(i - 1) : l.vs[j] # l.vs[i]}
                           IN  Lst([i \in 1..Cardinality(I) |-> l.vs[SetToSortSeq(I, <)[i]]], l.e)
    [] s.k = "duplicate" -> LET I == {i \in DOMAIN l.vs : Cardinality({j \in 1..(i - 1) : l.vs[j] = l.vs[i]}) = 1}
                            IN  Lst([i \in 1..Cardinality(I) |-> l.vs[SetToSortSeq(I, <)[i]]], l.e)
    [] s.k = "skip" -> Lst(SubSeq(l.vs, s.p[1] + 1, Len(l.vs)), l.e)
    [] s.k = "limit" -> IF Len(l.vs) >= s.p[1] THEN Lst(SubSeq(l.vs, 1, s.p[1]), "EOI") ELSE l
    [] s.k = "expand" -> Lst(FoldLeft(LAMBDA acc, v : acc \o [j \in DOMAIN v |-> <<v[j]>>], << >>, l.vs), l.e)
    [] s.k = "expandmap" -> Lst(FoldLeft(LAMBDA acc, v : acc \o [j \in 1..(Len(v) \div 2) |-> <<v[2 * j - 1], v[2 * j]>>], << >>, l.vs), l.e)
    [] s.k \in Eager -> IF l.e = "EOI" THEN Lst(Arranged(s, l.vs), "EOI") ELSE Lst(<< >>, l.e)
    [] s.k \in Bools ->
         LET b == FirstIdx(l.vs, LAMBDA v : Pred(s, v) = BoolStop(s))
         IN  IF b # 0 THEN Lst(<<Bit(BoolStop(s))>>, "EOI")
             ELSE IF l.e # "EOI" THEN Lst(<< >>, l.e)
             ELSE Lst(<<Bit(IF l.vs = << >> THEN BoolId(s) ELSE ~BoolStop(s))>>, "EOI")
    [] OTHER ->
         IF l.e # "EOI" THEN Lst(<< >>, l.e)
         ELSE CASE s.k \in Folds ->
                     IF HasIdentity(s) THEN Lst(<<FoldLeft(LAMBDA acc, v : FoldFn(s, acc, v), Identity(s), l.vs)>>, "EOI")
                     ELSE IF l.vs = << >> THEN l
                     ELSE IF s.k \in StartsWithFirst THEN Lst(<<FoldLeft(LAMBDA acc, v : FoldFn(s, acc, v), l.vs[1], Tail(l.vs))>>, "EOI")
                     ELSE Lst(<<FoldLeft(LAMBDA acc, v : FoldFn(s, acc, v), ZeroOf(s), l.vs)>>, "EOI")
                [] s.k = "toslice" -> Lst(<<[j \in DOMAIN l.vs |-> l.vs[j][1]]>>, "EOI")
                [] s.k = "tomap" -> Lst(<<MapOf(l.vs)>>, "EOI")
RECURSIVE MeansAll(_, _, _)
MeansAll(ss, l, i) == IF i > Len(ss) THEN l ELSE MeansAll(ss, Means(ss[i], l), i + 1)
ListOf(script) ==
  LET b == FirstIdx(script, LAMBDA r : r.e # "")
      vs == [i \in DOMAIN script |-> <<script[i].v>>]
  IN  IF b = 0 THEN Lst(vs, "EOI") ELSE Lst(SubSeq(vs, 1, b - 1), script[b].e)
Meaning(ss, script) == MeansAll(ss, ListOf(script), 1)
=============================================================================
