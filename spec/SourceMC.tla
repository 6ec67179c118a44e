------------------------------ MODULE SourceMC ------------------------------
EXTENDS Source, Json, TLC
CONSTANTS MaxNext, MaxItems, TextLen
ASSUME CsvRoundTrip({<< >>, <<97>>, <<34>>, <<44, 10>>, <<34, 97, 34>>}, 2)
VARIABLES hist, opened
Log(o) == hist' = Append(hist, o)
R0 == [v |-> << >>, e |-> ""]
Init == SourceInit /\ hist = << >> /\ opened = << >>
Seqs(n, S) == UNION {[1..i -> S] : i \in 0..n}
Injective(p) == \A i, j \in DOMAIN p : p[i][1] = p[j][1] => i = j
Open(raw) ==
  \/ \E kind \in {"slice", "of", "runes"}, s \in Seqs(MaxItems, {0, 5, 6}) : OpenSeq(s) /\ Log([op |-> "seq", kind |-> kind, raw |-> raw, items |-> s, res |-> R0]) /\ opened' = s
  \/ \E x \in {0, 4} : OpenSeq(<<x>>) /\ Log([op |-> "seq", kind |-> "one", raw |-> raw, items |-> <<x>>, res |-> R0]) /\ opened' = <<x>>
  \/ OpenSeq(<< >>) /\ Log([op |-> "seq", kind |-> "empty", raw |-> raw, items |-> << >>, res |-> R0]) /\ opened' = << >>
  \/ \E s \in Seqs(MaxItems, {0, 1, 2}) : OpenInfinite(<<2, 1, 1000>>, s) /\ Log([op |-> "inf", raw |-> raw, f |-> <<2, 1, 1000>>, init |-> s, res |-> R0]) /\ opened' = s
  \/ OpenFib /\ Log([op |-> "fib", raw |-> raw, res |-> R0]) /\ opened' = << >>
  \/ \E rows \in UNION {[1..i -> {<<1, 2>>, <<3, 4>>, <<5>>}] : i \in 0..MaxItems} : OpenCSV(rows) /\ Log([op |-> "csv", raw |-> FALSE, quote |-> raw, rows |-> rows, res |-> R0]) /\ opened' = rows
  \/ \E s \in Seqs(TextLen, {97, 44, 34, 10, 13, 32}), end \in {"EOI", "e1"} :
        OpenText(s, end) /\ Log([op |-> "csvtext", raw |-> FALSE, one |-> raw, text |-> s, end |-> end, res |-> R0]) /\ opened' = s
\* maps have more than one correct behaviour, so they are left to trace validation
Res == IF src.rest # << >> THEN [v |-> src.rest[1], e |-> ""]
       ELSE IF src.kind = "seq" THEN [v |-> << >>, e |-> src.end]
       ELSE IF src.kind = "fib" THEN [v |-> <<src.acc[1]>>, e |-> ""]
       ELSE [v |-> <<(src.f[1] * src.acc[1] + src.f[2]) % src.f[3]>>, e |-> ""]
Next == \/ hist = << >> /\ \E raw \in BOOLEAN : Open(raw)
        \/ hist # << >> /\ Len(hist) <= MaxNext /\ Next_(Res) /\ Log([op |-> "next", res |-> Res]) /\ UNCHANGED opened
Spec == Init /\ [][Next]_<<src, hist, opened>>
Emit == (Len(hist) = MaxNext + 1) => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> hist]))
\* nothing is lost, and nothing is added: what was delivered, and what is left, is what was opened
Conserved == (hist # << >> /\ hist[1].op = "seq") =>
   LET del == SelectSeq(Tail(hist), LAMBDA o : o.res.e = "")
   IN  [i \in 1..Len(del) |-> del[i].res.v[1]] \o [i \in 1..Len(src.rest) |-> src.rest[i][1]] = opened
=============================================================================
