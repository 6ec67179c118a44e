------------------------------- MODULE Faulty -------------------------------
(***************************************************************************)
(* The reader and the writer that fail after a number of bytes.  A reader  *)
(* delivers as many of the remaining bytes as fit into the buffer, and     *)
(* when none are left its error with no bytes, again and again.  A writer  *)
(* accepts count bytes, as many of each write as still fit, and when none  *)
(* fit any more returns its error with no bytes, again and again; if count *)
(* is negative it accepts nothing and has no error.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLE f
NoFaulty == [kind |-> "none", data |-> << >>, count |-> 0]
FaultyInit == f = NoFaulty
Min(a, b) == IF a < b THEN a ELSE b

OpenReader(data) == f' = [kind |-> "reader", data |-> data, count |-> 0]
OpenWriter(count) == f' = [kind |-> "writer", data |-> << >>, count |-> count]
\* a buffer of n bytes; the result is [n, e, data]
Read(n, res) ==
  /\ f.kind = "reader"
  /\ IF f.data = << >> THEN res = [n |-> 0, e |-> "err", data |-> << >>] /\ UNCHANGED f
     ELSE LET k == Min(n, Len(f.data)) IN
          /\ res = [n |-> k, e |-> "", data |-> SubSeq(f.data, 1, k)]
          /\ f' = [f EXCEPT !.data = SubSeq(@, k + 1, Len(@))]
Write(data, res) ==
  /\ f.kind = "writer"
  /\ IF f.count < 0 THEN res = [n |-> 0, e |-> ""] /\ UNCHANGED f
     ELSE IF Len(f.data) = f.count THEN res = [n |-> 0, e |-> "err"] /\ UNCHANGED f
     ELSE LET k == Min(Len(data), f.count - Len(f.data)) IN
          /\ res = [n |-> k, e |-> ""]
          /\ f' = [f EXCEPT !.data = @ \o SubSeq(data, 1, k)]
Output(res) == f.kind = "writer" /\ res = f.data /\ UNCHANGED f
=============================================================================
