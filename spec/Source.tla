------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* The sources of iteration that need no reader: slices, maps, single      *)
(* values, nothing, infinite series, the Fibonacci series, and the rows of *)
(* CSV documents.  A source is what it has still to deliver.               *)
(*                                                                         *)
(* Values are sequences of integers: <<n>> for a number, <<key, value>>    *)
(* for a map entry, the ids of the fields for a row of a CSV document made *)
(* of fields, and the bytes of the fields with -1 between them for a row   *)
(* of any text.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, CsvText

VARIABLES src    \* [kind, rest, bag, acc, a, b, m, err]

svars == <<src>>

Nothing == [kind |-> "none", rest |-> << >>, bag |-> {}, acc |-> <<0, 0>>, f |-> <<0, 0, 1>>, end |-> "EOI"]
SourceInit == src = Nothing

\* finite and ordered: "slice", "of", "one", "empty", "runes"
OpenSeq(items) == src' = [Nothing EXCEPT !.kind = "seq", !.rest = [i \in 1..Len(items) |-> <<items[i]>>]]

\* a map: keys are distinct, the order is not specified
OpenMap(pairs) == src' = [Nothing EXCEPT !.kind = "map", !.bag = {pairs[i] : i \in 1..Len(pairs)}]

\* the first initial values but the last are literal, the last is the seed of f(x) = (f1*x + f2) % f3; no seed means 0
OpenInfinite(f, init) ==
  LET n == Len(init) IN
  src' = [Nothing EXCEPT !.kind = "inf", !.f = f,
                         !.rest = [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> <<init[i]>>],
                         !.acc = <<IF n = 0 THEN 0 ELSE init[n], 0>>]

OpenFib == src' = [Nothing EXCEPT !.kind = "fib", !.acc = <<1, 1>>]

\* rows up to the first that has not as many fields as the first row, where the error is
OpenCSV(rows) ==
  LET bad == {i \in 1..Len(rows) : Len(rows[i]) # Len(rows[1])}
      cut == IF bad = {} THEN Len(rows) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN  src' = [Nothing EXCEPT !.kind = "seq", !.rest = SubSeq(rows, 1, cut), !.end = IF bad = {} THEN "EOI" ELSE "fields"]

\* a text as CSV document: whatever it is, the rows it has, and then the end or an error; end is how its reader ends
OpenText(text, end) ==
  LET p == CsvParse(text, end) IN
  src' = [Nothing EXCEPT !.kind = "seq", !.rest = [i \in 1..Len(p.rows) |-> CsvFlat(p.rows[i])], !.end = p.e]

Next_(res) ==
  \/ /\ src.kind \in {"seq", "inf"} /\ src.rest # << >>
     /\ res = [v |-> src.rest[1], e |-> ""]
     /\ src' = [src EXCEPT !.rest = Tail(src.rest)]
  \/ /\ src.kind = "seq" /\ src.rest = << >>
     /\ res = [v |-> << >>, e |-> src.end]
     /\ UNCHANGED src
  \/ /\ src.kind = "map" /\ src.bag # {}
     /\ res.e = "" /\ res.v \in src.bag              \* any entry not delivered yet
     /\ src' = [src EXCEPT !.bag = src.bag \ {res.v}]
  \/ /\ src.kind = "map" /\ src.bag = {}
     /\ res = [v |-> << >>, e |-> "EOI"]
     /\ UNCHANGED src
  \/ /\ src.kind = "inf" /\ src.rest = << >>
     /\ LET x == (src.f[1] * src.acc[1] + src.f[2]) % src.f[3] IN
          /\ res = [v |-> <<x>>, e |-> ""]
          /\ src' = [src EXCEPT !.acc = <<x, 0>>]
  \/ /\ src.kind = "fib"
     /\ res = [v |-> <<src.acc[1]>>, e |-> ""]
     /\ src' = [src EXCEPT !.acc = <<src.acc[2], src.acc[1] + src.acc[2]>>]
=============================================================================
