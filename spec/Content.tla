------------------------------- MODULE Content -------------------------------
(***************************************************************************)
(* The content of requests: a body compressed with gzip is read as it was  *)
(* before compression if the request says so, and as it is otherwise;      *)
(* rows of a CSV body and values of a JSON body are iterated if the        *)
(* request says that it has that type of content, and nothing otherwise.   *)
(***************************************************************************)
EXTENDS JsonDoc, CsvText

VARIABLE q     \* what is being iterated: "none", "csv" or "json", the rows that are left, and what is after them
NoContent == [kind |-> "none", rows |-> << >>, end |-> "EOI"]
ContentInit == JsonInit /\ q = NoContent
ContentReset == j' = NoDoc /\ q' = NoContent

\* reading all of the body; res is [data, e]
Body(data, res) == res = [data |-> data, e |-> ""] /\ UNCHANGED <<j, q>>

\* ctype is the type of content the request has, res is "iter" or "nil"
CSV(ctype, text, res) ==
  /\ res = (IF ctype = "text/csv" THEN "iter" ELSE "nil")
  /\ q' = (IF res = "iter" THEN LET p == CsvParse(text, "EOI") IN [kind |-> "csv", rows |-> p.rows, end |-> p.e] ELSE NoContent) /\ UNCHANGED j
JSON(ctype, data, res) ==
  /\ res = (IF ctype = "application/json" THEN "iter" ELSE "nil")
  /\ Iterate(data, "EOI", << >>, [c |-> 0])
  /\ q' = (IF res = "iter" THEN [kind |-> "json", rows |-> << >>, end |-> "EOI"] ELSE NoContent)
\* the next row or value: res is [v, e, c]
NextContent(res) ==
  \/ q.kind = "json" /\ Next_(res) /\ UNCHANGED q
  \/ /\ q.kind = "csv" /\ UNCHANGED j
     /\ IF q.rows = << >> THEN res.v = << >> /\ res.e = q.end /\ UNCHANGED q
        ELSE res.v = Head(q.rows) /\ res.e = "" /\ q' = [q EXCEPT !.rows = Tail(@)]
=============================================================================
