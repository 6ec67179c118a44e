------------------------------ MODULE CsvText ------------------------------
(***************************************************************************)
(* The rows that a CSV text denotes (RFC 4180, with line ends LF or CR LF, *)
(* and blank lines ignored), as sequences of bytes.                        *)
(*                                                                         *)
(* A text that is malformed has rows up to the row where it is.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CsvLF == 10
CsvCR == 13
CsvQuote == 34
CsvComma == 44

\* line ends are LF, also within quotes; a CR that is the last character is the beginning of a line end
RECURSIVE CsvNorm(_, _, _)
CsvNorm(t, i, eof) ==
  IF i > Len(t) THEN << >>
  ELSE IF t[i] = CsvCR /\ (IF i = Len(t) THEN eof ELSE t[i + 1] = CsvLF) THEN CsvNorm(t, i + 1, eof)
  ELSE <<t[i]>> \o CsvNorm(t, i + 1, eof)

\* m is where position i is: before a record, before a field, in a field without or with quotes, after a quote in the latter.
\* end is what the text ends with: "EOI" or an error of the reader. f is the field, row the record so far.
RECURSIVE CsvGo(_, _, _, _, _, _, _)
CsvGo(t, end, i, m, f, row, rows) ==
  LET x == IF i > Len(t) THEN -1 ELSE t[i]
      more == CsvGo(t, end, i + 1, "field", << >>, Append(row, f), rows)
      rec == Append(row, f)
      record == IF rows # << >> /\ Len(rec) # Len(rows[1]) THEN [rows |-> rows, e |-> "fields"]
                ELSE CsvGo(t, end, i + 1, "record", << >>, << >>, Append(rows, rec))
      failed == x = -1 /\ end # "EOI"
  IN  CASE failed -> [rows |-> rows, e |-> end]
        [] m = "record" -> IF x = -1 THEN [rows |-> rows, e |-> end]
                           ELSE IF x = CsvLF THEN CsvGo(t, end, i + 1, m, f, row, rows)
                           ELSE CsvGo(t, end, i, "field", << >>, << >>, rows)
        [] m = "field" /\ x = CsvQuote -> CsvGo(t, end, i + 1, "quoted", f, row, rows)
        [] m \in {"field", "plain", "after"} /\ x = CsvComma -> more
        [] m \in {"field", "plain", "after"} /\ x \in {CsvLF, -1} -> record
        [] m \in {"field", "plain"} /\ x # CsvQuote -> CsvGo(t, end, i + 1, "plain", Append(f, x), row, rows)
        [] m = "quoted" /\ x = CsvQuote -> CsvGo(t, end, i + 1, "after", f, row, rows)
        [] m = "quoted" /\ x # -1 -> CsvGo(t, end, i + 1, m, Append(f, x), row, rows)
        [] m = "after" /\ x = CsvQuote -> CsvGo(t, end, i + 1, "quoted", Append(f, x), row, rows)
        [] OTHER -> [rows |-> rows, e |-> "csv"]

CsvParse(t, end) == CsvGo(CsvNorm(t, 1, end = "EOI"), end, 1, "record", << >>, << >>, << >>)

\* a text of rows
RECURSIVE CsvEscape(_)
CsvEscape(f) == IF f = << >> THEN << >> ELSE (IF Head(f) = CsvQuote THEN <<CsvQuote, CsvQuote>> ELSE <<Head(f)>>) \o CsvEscape(Tail(f))
CsvField(f) == <<CsvQuote>> \o CsvEscape(f) \o <<CsvQuote>>
RECURSIVE CsvRow(_)
CsvRow(row) == CsvField(Head(row)) \o (IF Len(row) = 1 THEN <<CsvLF>> ELSE <<CsvComma>> \o CsvRow(Tail(row)))
RECURSIVE CsvRender(_)
CsvRender(rows) == IF rows = << >> THEN << >> ELSE CsvRow(Head(rows)) \o CsvRender(Tail(rows))

\* rows that are written are read as they were (without CR, which is lost before LF)
CsvRoundTrip(cells, n) ==
  \A w \in 1..2, k \in 0..n : \A rows \in [1..k -> [1..w -> cells]] : CsvParse(CsvRender(rows), "EOI") = [rows |-> rows, e |-> "EOI"]

\* a row as one sequence of integers
RECURSIVE CsvFlat(_)
CsvFlat(row) == Head(row) \o (IF Len(row) = 1 THEN << >> ELSE <<-1>> \o CsvFlat(Tail(row)))
=============================================================================
