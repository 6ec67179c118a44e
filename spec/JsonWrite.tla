------------------------------ MODULE JsonWrite ------------------------------
(***************************************************************************)
(* Writing a value as JSON text, one code point after the other, to a      *)
(* writer that accepts budget of them and then fails (always accepts, if   *)
(* budget is -1).  A result is [text, e, after]: what was accepted, the    *)
(* error that was returned, how many writes were tried after a failed one. *)
(***************************************************************************)
EXTENDS JsonText
VARIABLE writes
WriteInit == writes = 0

Complete(text, v) == LET r == Value(text, 1) IN r.k = "ok" /\ r.n = Len(text) + 1 /\ r.v = v
\* text is the beginning of a text of v: it is the beginning of some JSON text, and not complete
Begins(text, v) == LET r == Value(text, 1) IN r.k = "short" \/ (r.k = "ok" /\ r.n = Len(text) + 1 /\ v[1] = 3 /\ r.v # v)

Write(v, budget, res) ==
  /\ IF res.e = "" THEN Complete(res.text, v) /\ (budget >= 0 => Len(res.text) <= budget)
     ELSE res.e = "werr" /\ budget >= 0 /\ Len(res.text) = budget /\ Begins(res.text, v)
  /\ res.after = 0
  /\ writes' = writes + 1
=============================================================================
