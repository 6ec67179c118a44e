------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Iterating an io.Reader as bytes, runes or lines.  The reader delivers   *)
(* data and then ends with EOF or an error; in which portions it delivers, *)
(* and whether the end comes together with the last portion, is of no      *)
(* consequence, so the specification does not mention it.                  *)
(*                                                                         *)
(* A result is [v, e, used, closed]: the value as a sequence (of one byte, *)
(* one code point, or the code points of a line), the error, how many      *)
(* bytes were taken from the reader (0 with an error), how often it was closed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Utf8

VARIABLES d      \* [kind, data, pos, end, dead, cr, closer, closed, str]
dvars == <<d>>

NoReader == [kind |-> "none", data |-> << >>, pos |-> 0, end |-> "EOI", dead |-> "", cr |-> FALSE, closer |-> "", closed |-> 0, str |-> FALSE]
DecodeInit == d = NoReader

\* closer: "" if the reader is no closer, else "ok", or the error of closing it
\* str: it is iterated as a string, so there is no reader to watch
Open(kind, data, end, closer, str) ==
  d' = [NoReader EXCEPT !.kind = kind, !.data = data, !.end = end, !.closer = closer, !.str = str]

-----------------------------------------------------------------------------
\* one code point at position p (0 = nothing consumed): [k, r, p, errs]
RuneStep(data, p, end) ==
  IF p = Len(data) THEN [k |-> "end", r |-> 0, p |-> p, errs |-> {end}]
  ELSE LET u == Utf8At(data, p + 1) IN
       IF u.ok THEN [k |-> "rune", r |-> u.r, p |-> p + u.n, errs |-> {}]
       \* if the reader fails within an encoding, either complaint is right
       ELSE [k |-> "bad", r |-> 0, p |-> p, errs |-> {"utf8"} \cup (IF u.short /\ end # "EOI" THEN {end} ELSE {})]

\* a line from position p on: [k, line, p, cr, errs]
RECURSIVE LineStep(_, _, _, _, _)
LineStep(data, p, end, cr, acc) ==
  LET s == RuneStep(data, p, end) IN
  IF s.k = "bad" THEN [k |-> "err", line |-> << >>, p |-> p, cr |-> FALSE, errs |-> s.errs]
  ELSE IF s.k = "end" THEN
       IF end = "EOI" /\ acc # << >> THEN [k |-> "line", line |-> acc, p |-> p, cr |-> FALSE, errs |-> {}]
       ELSE [k |-> "err", line |-> << >>, p |-> p, cr |-> FALSE, errs |-> s.errs]
  ELSE IF s.r = 13 THEN [k |-> "line", line |-> acc, p |-> s.p, cr |-> TRUE, errs |-> {}]
  ELSE IF s.r = 10 THEN
       IF cr /\ acc = << >> THEN LineStep(data, s.p, end, FALSE, acc)   \* the second half of CR LF
       ELSE [k |-> "line", line |-> acc, p |-> s.p, cr |-> FALSE, errs |-> {}]
  ELSE LineStep(data, s.p, end, FALSE, Append(acc, s.r))

Fail(e, res) == res.v = << >> /\ res.e = e

\* the error that follows the last byte: a byte reader that can be closed is closed at EOF, which may fail
EndError == IF d.end # "EOI" THEN d.end
            ELSE IF d.closer \notin {"", "ok"} THEN d.closer ELSE "EOI"

NextByte(res) ==
  IF d.pos < Len(d.data)
  THEN /\ res = [v |-> <<d.data[d.pos + 1]>>, e |-> "", used |-> d.pos + 1, closed |-> 0]
       /\ d' = [d EXCEPT !.pos = d.pos + 1]
  ELSE LET n == IF d.end = "EOI" /\ d.closer # "" THEN 1 ELSE 0 IN
       /\ res = [v |-> << >>, e |-> EndError, used |-> 0, closed |-> n]
       /\ d' = [d EXCEPT !.dead = EndError, !.closed = n]

NextRune(res) ==
  LET s == RuneStep(d.data, d.pos, d.end) IN
  IF s.k = "rune" THEN /\ res.v = <<s.r>> /\ res.e = "" /\ (d.str \/ res.used = s.p)
                       /\ d' = [d EXCEPT !.pos = s.p]
  ELSE /\ \E e \in s.errs : Fail(e, res)
       /\ d' = [d EXCEPT !.dead = res.e]

NextLine(res) ==
  LET s == LineStep(d.data, d.pos, d.end, d.cr, << >>) IN
  IF s.k = "line" THEN /\ res.v = s.line /\ res.e = "" /\ (d.str \/ res.used = s.p)
                       /\ d' = [d EXCEPT !.pos = s.p, !.cr = s.cr, !.dead = ""]
  ELSE /\ \E e \in s.errs : Fail(e, res)
       /\ d' = [d EXCEPT !.dead = res.e]

\* once there was an error (or the end), it is repeated
Repeat(res) == res.v = << >> /\ res.e = d.dead /\ (d.kind = "bytes" => res.closed = d.closed) /\ UNCHANGED d

Next_(res) ==
  IF d.dead # "" THEN Repeat(res)
  ELSE \/ d.kind = "bytes" /\ NextByte(res)
       \/ d.kind = "runes" /\ NextRune(res)
       \/ d.kind = "lines" /\ NextLine(res)
=============================================================================
