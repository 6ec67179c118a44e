------------------------------- MODULE JsonDoc -------------------------------
(***************************************************************************)
(* Reading JSON documents from a reader: Parse reads all of it and yields  *)
(* the value, Iterate yields the elements of an array one by one, reading  *)
(* no more than it needs (or the one object).                              *)
(*                                                                         *)
(* The reader delivers the bytes of data in chunks (chunks[i] is where the *)
(* i-th one ends), and then ends with EOI or an error.  Errors: "EOI",     *)
(* "read" is the error of the reader, "utf8" that of invalid UTF-8, "err"  *)
(* any other one.                                                          *)
(***************************************************************************)
EXTENDS JsonText, Utf8

VARIABLES j    \* the document being iterated: [els, must, fin, pos, dead, ends, chunks]
NoDoc == [els |-> << >>, must |-> 0, fin |-> {"err"}, pos |-> 0, dead |-> "", ends |-> << >>, chunks |-> << >>]
JsonInit == j = NoDoc

\* the code points of data, for each the offset at which its encoding ends, and the errors that may end them
RECURSIVE DecodeAll(_, _, _, _, _)
DecodeAll(data, p, end, rs, ends) ==
  IF p >= Len(data) THEN [rs |-> rs, ends |-> ends, tail |-> {end}]
  ELSE LET u == Utf8At(data, p + 1) IN
       IF u.ok THEN DecodeAll(data, p + u.n, end, Append(rs, u.r), Append(ends, p + u.n))
       ELSE [rs |-> rs, ends |-> ends, tail |-> {"utf8"} \cup (IF u.short /\ end # "EOI" THEN {end} ELSE {})]

\* the errors with which reading may end, k is the parse result of everything
Endings(k, tail) == CASE k = "ok" -> tail
                      [] k = "short" -> {IF e = "EOI" THEN "err" ELSE e : e \in tail}
                      [] k = "bad" -> {"err"} \cup (tail \ {"EOI"})

Parse(data, end, res) ==
  LET d == DecodeAll(data, 0, end, << >>, << >>)
      r == Document(d.rs)
  IN  /\ IF r.k = "ok" /\ d.tail = {"EOI"} THEN res = [v |-> r.v, e |-> ""]
         ELSE res.v = << >> /\ res.e \in Endings(r.k, d.tail) \ {"EOI"}
      /\ UNCHANGED j

\* what iterating a document amounts to: its elements with the position of what follows each, how many of them have to be
\* delivered whatever follows, and how it ends
Contents(rs) ==
  LET p == SkipWs(rs, 1) IN
  IF p > Len(rs) THEN [els |-> << >>, must |-> 0, k |-> "short"]
  ELSE IF rs[p] = 123
  THEN LET r == Value(rs, p)
           k == IF r.k = "ok" THEN Trailer(rs, r).k ELSE r.k
       IN  [els |-> IF r.k = "ok" THEN <<[v |-> r.v, n |-> r.n, d |-> Len(rs) + 2]>> ELSE << >>, must |-> IF k = "ok" THEN 1 ELSE 0, k |-> k]
  ELSE IF rs[p] = 91
  THEN LET q == SkipWs(rs, p + 1)
           r == IF q <= Len(rs) /\ rs[q] = 93 THEN [k |-> "ok", v |-> << >>, n |-> q + 1] ELSE Elements(rs, q, << >>)
           n == Len(r.v)
           sure == n > 0 /\ r.v[n].d <= Len(rs) /\ rs[r.v[n].d] \in {44, 93}
       IN  [els |-> r.v, must |-> IF n = 0 \/ sure THEN n ELSE n - 1, k |-> IF r.k = "ok" THEN Trailer(rs, r).k ELSE r.k]
  ELSE [els |-> << >>, must |-> 0, k |-> "bad"]

\* the chunk that has the byte at offset b (from 1), one more than there are chunks if there is none
ChunkOf(chunks, b) == IF \E i \in DOMAIN chunks : chunks[i] >= b
                      THEN CHOOSE i \in DOMAIN chunks : chunks[i] >= b /\ \A h \in 1..(i - 1) : chunks[h] < b
                      ELSE Len(chunks) + 1
\* the chunk that has the end of the code point at position p
ChunkAt(ends, chunks, p) == IF p > Len(ends) THEN Len(chunks) + 1 ELSE ChunkOf(chunks, ends[p])

\* starting to iterate an array reads up to the bracket; res.c is how many chunks were started
Iterate(data, end, chunks, res) ==
  LET d == DecodeAll(data, 0, end, << >>, << >>)
      ct == Contents(d.rs)
      p == SkipWs(d.rs, 1)
  IN  /\ p <= Len(d.rs) /\ d.rs[p] = 91 => res.c <= ChunkAt(d.ends, chunks, p)
      /\ j' = [els |-> ct.els, must |-> ct.must, fin |-> Endings(ct.k, d.tail), pos |-> 0, dead |-> "", ends |-> d.ends, chunks |-> chunks]

\* an element is delivered as soon as the chunk is there that tells where it ends
NextElement(res) ==
  /\ j.dead = ""
  /\ j.pos < Len(j.els)
  /\ res.v = j.els[j.pos + 1].v /\ res.e = ""
  /\ res.c <= ChunkAt(j.ends, j.chunks, j.els[j.pos + 1].d)
  /\ j' = [j EXCEPT !.pos = @ + 1]
NextEnd(res) ==
  /\ j.dead = ""
  /\ j.pos >= j.must
  /\ res.v = << >> /\ res.e \in j.fin
  /\ j' = [j EXCEPT !.dead = res.e]
NextAgain(res) == j.dead # "" /\ res.v = << >> /\ res.e = j.dead /\ UNCHANGED j
Next_(res) == NextElement(res) \/ NextEnd(res) \/ NextAgain(res)
=============================================================================
