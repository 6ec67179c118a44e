-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Writers: every value of a call of Write is handed to the destination,   *)
(* one after the other, until one of them fails.                           *)
(*                                                                         *)
(* A destination of bytes accepts a number of bytes and then fails once,   *)
(* taking what still fits of that write; script is the sequence of such    *)
(* failures [room, how]: room bytes are accepted since the one before, how *)
(* is "err" (an error of the destination), "short" (fewer bytes, but no    *)
(* error) or "late" (all of that write is taken, and an error returned).   *)
(* After the last one everything is accepted.  A destination of values (a  *)
(* function) does the same with values, nothing is taken of one that fails *)
(* otherwise.                                                              *)
(*                                                                         *)
(* Result of a call: [e, got], the error ("" if none) and what was         *)
(* accepted during it.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Utf8

VARIABLE w    \* [kind, script, out]: kind of writer, the failures to come, what the destination has
NoWriter == [kind |-> "none", script |-> << >>, out |-> << >>]
SinkInit == w = NoWriter

Open(kind, script) == w' = [kind |-> kind, script |-> script, out |-> << >>]

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
\* the units that values amount to: bytes, or the values themselves
Units(kind, vals) ==
  CASE kind \in {"fn", "slice", "map", "bytes"} -> vals
    [] kind = "runes" -> Utf8EncodeAll(vals)
    [] kind = "strings" -> Cat([i \in DOMAIN vals |-> Utf8EncodeAll(vals[i])])
    [] kind = "lines" -> Cat([i \in DOMAIN vals |-> Append(Utf8EncodeAll(vals[i]), 10)])

\* the last pair of each key, in the order in which the keys came first
RECURSIVE MapOf(_)
MapOf(ps) == IF ps = << >> THEN {} ELSE LET p == ps[Len(ps)]
                                            m == MapOf(SubSeq(ps, 1, Len(ps) - 1))
                                        IN  {q \in m : q[1] # p[1]} \cup {p}

\* what of the units us is accepted by a call that fails: up to the failure, or, if it takes all of what the destination was
\* handed at once, some more. Writers hand over value by value, it would do to hand over more at once
Taken(us, s) == IF s.how = "late" THEN {SubSeq(us, 1, n) : n \in s.room + 1..Len(us)} ELSE {SubSeq(us, 1, s.room)}
How(s) == IF s.how = "late" THEN "err" ELSE s.how

Write(vals, res) ==
  LET us == Units(w.kind, vals) IN
  IF w.script = << >> \/ Len(us) <= w.script[1].room
  THEN /\ res = [e |-> "", got |-> us]
       /\ w' = [w EXCEPT !.out = @ \o us, !.script = IF @ = << >> THEN @ ELSE <<[@[1] EXCEPT !.room = @ - Len(us)]>> \o Tail(@)]
  ELSE \E got \in Taken(us, w.script[1]) :
       /\ res = [e |-> How(w.script[1]), got |-> got]
       /\ w' = [w EXCEPT !.out = @ \o got, !.script = Tail(@)]
\* what the destination has: the slice, the map as a set of pairs, or everything that was accepted
Output(res) == (IF w.kind = "map" THEN {res[i] : i \in DOMAIN res} = MapOf(w.out) /\ Len(res) = Cardinality(MapOf(w.out)) ELSE res = w.out) /\ UNCHANGED w
\* the client empties the slice
Clear == w' = [w EXCEPT !.out = << >>]
=============================================================================
