-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* The iterator protocol (package iter): an iterator is a buffer of unread *)
(* values on top of an iterating function.  The functions are scripted:    *)
(* script[n] is what the n-th call of the function returns, a record       *)
(* [v |-> value, e |-> error] where e = "" means no error; calls beyond    *)
(* the script return the end of iteration "EOI".                           *)
(*                                                                         *)
(* The outer iterator is one of                                            *)
(*   "of"     - the one part itself                                        *)
(*   "concat" - the concatenation of all parts (each may be absent)        *)
(* optionally wrapped so that its first error is replaced by another one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES parts,     \* sequence of [script, pos, calls, buf, err, nil]
          shape,     \* "none", "of" or "concat"
          seterr,    \* "" or the replacing error
          cur,       \* concat: index of the part to read from; Len(parts)+1 when finished
          inner,     \* error of the concatenation or of the replacement, once it happened
          outer      \* [buf, err] of the outer iterator

ivars == <<parts, shape, seterr, cur, inner, outer>>

NoRes == [v |-> 0, e |-> "", c |-> << >>]

IterInit == /\ parts = << >> /\ shape = "none" /\ seterr = "" /\ cur = 1 /\ inner = "" /\ outer = [buf |-> << >>, err |-> ""]

IterReset == /\ parts' = << >> /\ shape' = "none" /\ seterr' = "" /\ cur' = 1 /\ inner' = "" /\ outer' = [buf |-> << >>, err |-> ""]

NewPart(script, isnil) == [script |-> script, calls |-> 0, buf |-> << >>, err |-> "", nil |-> isnil]

New(sh, ps, se) ==
  /\ parts' = [i \in 1..Len(ps) |-> NewPart(ps[i].script, ps[i].nil)]
  /\ shape' = sh /\ seterr' = se /\ cur' = 1 /\ inner' = "" /\ outer' = [buf |-> << >>, err |-> ""]

-----------------------------------------------------------------------------
\* Next on one part: pop the buffer, else call the function unless it has returned an error before.
\* Yields the new part, and the result.
PartNext(p) ==
  IF p.buf # << >> THEN [p |-> [p EXCEPT !.buf = SubSeq(p.buf, 1, Len(p.buf) - 1)], v |-> p.buf[Len(p.buf)], e |-> ""]
  ELSE IF p.err # "" THEN [p |-> p, v |-> 0, e |-> p.err]
  ELSE LET n == p.calls + 1
           r == IF n <= Len(p.script) THEN p.script[n] ELSE [v |-> 0, e |-> "EOI"]
       IN  IF r.e = "" THEN [p |-> [p EXCEPT !.calls = n], v |-> r.v, e |-> ""]
           ELSE [p |-> [p EXCEPT !.calls = n, !.err = r.e], v |-> 0, e |-> r.e]   \* a value that comes with an error is dropped

\* Next on the concatenation, starting at part i: parts are exhausted in order; an error other than EOI ends it for good
RECURSIVE ConcatNext(_, _)
ConcatNext(ps, i) ==
  IF i > Len(ps) THEN [ps |-> ps, i |-> i, v |-> 0, e |-> "EOI"]
  ELSE IF ps[i].nil THEN ConcatNext(ps, i + 1)
  ELSE LET r == PartNext(ps[i])
           q == [ps EXCEPT ![i] = r.p]
       IN  IF r.e = "" THEN [ps |-> q, i |-> i, v |-> r.v, e |-> ""]
           ELSE IF r.e = "EOI" THEN ConcatNext(q, i + 1)
           ELSE [ps |-> q, i |-> Len(ps) + 1, v |-> 0, e |-> r.e]

Calls(ps) == [i \in 1..Len(ps) |-> ps[i].calls]

\* the outcome of a Next on the outer iterator, as [ps, i, v, e]
Pull == IF shape = "of" THEN LET r == PartNext(parts[1]) IN [ps |-> <<r.p>>, i |-> cur, v |-> r.v, e |-> r.e]
        ELSE ConcatNext(parts, cur)

\* Next returns the value unread last; else whatever the function underneath has; once that ends it is never asked again
Next_(res) ==
  /\ shape # "none"
  /\ IF outer.buf # << >>
     THEN /\ res = [v |-> outer.buf[Len(outer.buf)], e |-> "", c |-> Calls(parts)]
          /\ outer' = [outer EXCEPT !.buf = SubSeq(outer.buf, 1, Len(outer.buf) - 1)]
          /\ UNCHANGED <<parts, cur, inner>>
     ELSE IF outer.err # ""
     THEN /\ res = [v |-> 0, e |-> outer.err, c |-> Calls(parts)]
          /\ UNCHANGED <<parts, cur, inner, outer>>
     ELSE LET r == Pull
              e == IF r.e # "" /\ seterr # "" THEN seterr ELSE r.e
          IN  /\ parts' = r.ps /\ cur' = r.i /\ inner' = r.e
              /\ outer' = [outer EXCEPT !.err = e]
              /\ res = [v |-> r.v, e |-> e, c |-> Calls(r.ps)]
  /\ UNCHANGED <<shape, seterr>>

\* Unread on the outer iterator is allowed at any time, also after the end
Unread(v, res) ==
  /\ shape # "none"
  /\ outer' = [outer EXCEPT !.buf = Append(outer.buf, v)]
  /\ res = [v |-> 0, e |-> "", c |-> Calls(parts)]
  /\ UNCHANGED <<parts, shape, seterr, cur, inner>>

\* The parts of a concatenation are iterators of their own, which the client may still use
UnreadPart(i, v, res) ==
  /\ i <= Len(parts) /\ ~parts[i].nil /\ shape = "concat"
  /\ parts' = [parts EXCEPT ![i].buf = Append(parts[i].buf, v)]
  /\ res = [v |-> 0, e |-> "", c |-> Calls(parts)]
  /\ UNCHANGED <<shape, seterr, cur, inner, outer>>

NextPart(i, res) ==
  /\ i <= Len(parts) /\ ~parts[i].nil /\ shape = "concat"
  /\ LET r == PartNext(parts[i]) IN
       /\ parts' = [parts EXCEPT ![i] = r.p]
       /\ res = [v |-> r.v, e |-> r.e, c |-> Calls(parts')]
  /\ UNCHANGED <<shape, seterr, cur, inner, outer>>

-----------------------------------------------------------------------------
\* Design properties
\* a function that returned an error is never called again
NeverAfterError ==
  \A i \in 1..Len(parts) : \A n \in 1..Len(parts[i].script) :
     (parts[i].script[n].e # "") => parts[i].calls <= n
\* the end is permanent
EndIsPermanent == [][outer.err # "" => (outer'.err = outer.err \/ shape' = "none" \/ parts' # parts)]_ivars
=============================================================================
