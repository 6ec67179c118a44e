------------------------------ MODULE DecodeMC ------------------------------
(* All short inputs over alphabets that meet every case of the decoders. The behaviours carry the complete expected
   sequence; the portions in which the reader delivers are chosen here too. *)
EXTENDS Decode, Json, TLC, FiniteSets
CONSTANTS RuneLen, LineLen
VARIABLES hist

\* 1-byte, first bytes of 2, 3 and 4 byte encodings at the boundaries, continuations at the boundaries, illegal
RuneAlpha == {65, 195, 192, 224, 237, 226, 240, 244, 128, 159, 160, 191, 248}
LineAlpha == {97, 98, 10, 13, 195, 169}
Seqs(n, S) == UNION {[1..i -> S] : i \in 0..n}

\* portions: sizes of the reads the reader serves (the last one is repeated), zero portions are legal
Plans == {<<1>>, <<2>>, <<64>>, <<1, 2, 3>>, <<0, 1>>, <<3, 1>>}

Init == DecodeInit /\ hist = << >>

Expect(kind, data, end) ==
  LET RECURSIVE Runes(_), Lines(_, _)
      Runes(p) == LET s == RuneStep(data, p, end) IN
                  IF s.k = "rune" THEN <<[v |-> <<s.r>>, e |-> "", used |-> s.p, closed |-> 0]>> \o Runes(s.p)
                  ELSE <<[v |-> << >>, e |-> (CHOOSE e \in s.errs : TRUE), used |-> 0, closed |-> 0]>>
      Lines(p, cr) == LET s == LineStep(data, p, end, cr, << >>) IN
                  IF s.k = "line" THEN <<[v |-> s.line, e |-> "", used |-> s.p, closed |-> 0]>> \o Lines(s.p, s.cr)
                  ELSE <<[v |-> << >>, e |-> (CHOOSE e \in s.errs : TRUE), used |-> 0, closed |-> 0]>>
  IN  IF kind = "runes" THEN Runes(0) ELSE Lines(0, FALSE)

\* the last result twice: the error is repeated
Behaviour(kind, data, end, plan, eofdata, raw) ==
  LET ex == Expect(kind, data, end)
      open == [op |-> "open", kind |-> kind, data |-> data, end |-> end, plan |-> plan, eofdata |-> eofdata, closer |-> "", raw |-> raw, str |-> FALSE,
               res |-> [v |-> << >>, e |-> "", used |-> 0, closed |-> 0]]
      two == ex \o <<ex[Len(ex)]>>
  IN  [id |-> "mc", ops |-> <<open>> \o [i \in 1..Len(two) |-> [op |-> "next", res |-> two[i]]]]

\* the plan is a function of the data, so that all plans occur, but not all with each input
PlanOf(data, n) == LET ps == <<<<1>>, <<2>>, <<64>>, <<1, 2, 3>>, <<0, 1>>, <<3, 1>>>>
                       RECURSIVE Sum(_)
                       Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))
                   IN  ps[((Sum(data) + Len(data) + n) % 6) + 1]

Pick == \/ \E data \in Seqs(RuneLen, RuneAlpha), eofdata \in BOOLEAN :
             hist' = <<Behaviour("runes", data, "EOI", PlanOf(data, 0), eofdata, eofdata)>> /\ Open("runes", data, "EOI", "", FALSE)
        \/ \E data \in Seqs(LineLen, LineAlpha), eofdata \in BOOLEAN :
             hist' = <<Behaviour("lines", data, "EOI", PlanOf(data, 1), eofdata, ~eofdata)>> /\ Open("lines", data, "EOI", "", FALSE)

Next == hist = << >> /\ Pick
Spec == Init /\ [][Next]_<<d, hist>>
Emit == hist # << >> => PrintT("BEHAVIOUR " \o ToJson(hist[1]))

\* ---- properties of the design
Scalars == {0, 65, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111}
RoundTrip == \A s \in Scalars : LET u == Utf8At(Utf8Encode(s), 1) IN u.ok /\ u.r = s /\ u.n = Len(Utf8Encode(s))
\* what was decoded, encoded again, is the data: nothing is lost or invented
Faithful == hist # << >> /\ d.kind = "runes" =>
   LET ops == hist[1].ops
       ok == SelectSeq(Tail(ops), LAMBDA o : o.res.e = "")
       RECURSIVE All(_)
       All(s) == IF s = << >> THEN << >> ELSE Utf8Encode(Head(s).res.v[1]) \o All(Tail(s))
       enc == All(ok)
   IN  enc = SubSeq(d.data, 1, Len(enc)) /\ (ops[Len(ops)].res.e = "EOI" => enc = d.data)
=============================================================================
