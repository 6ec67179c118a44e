-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8, as sequences of bytes and code points *)
EXTENDS Integers, Sequences

IsCont(b) == b \div 64 = 2

\* how many bytes the first byte of an encoding asks for; 0 if it cannot be a first byte
Utf8Len(b) == IF b < 128 THEN 1 ELSE IF b \div 32 = 6 THEN 2 ELSE IF b \div 16 = 14 THEN 3 ELSE IF b \div 8 = 30 THEN 4 ELSE 0

Utf8Min(n) == IF n = 1 THEN 0 ELSE IF n = 2 THEN 128 ELSE IF n = 3 THEN 2048 ELSE 65536

IsScalar(r) == (r >= 0 /\ r < 55296) \/ (r > 57343 /\ r <= 1114111)

RECURSIVE Utf8Fold(_, _)
Utf8Fold(acc, bs) == IF bs = << >> THEN acc ELSE Utf8Fold(acc * 64 + (Head(bs) % 64), Tail(bs))

\* the code point of a complete encoding bs
Utf8Value(bs) ==
  LET n == Len(bs)
      top == IF n = 1 THEN bs[1] ELSE IF n = 2 THEN bs[1] % 32 ELSE IF n = 3 THEN bs[1] % 16 ELSE bs[1] % 8
  IN  Utf8Fold(top, Tail(bs))

\* decodes at position p of d: [ok, r, n]; short = the data ends within the encoding
Utf8At(d, p) ==
  LET n == Utf8Len(d[p])
      have == Len(d) - p + 1
  IN  IF n = 0 THEN [ok |-> FALSE, short |-> FALSE, r |-> 0, n |-> 1]
      ELSE IF have < n THEN [ok |-> FALSE, short |-> TRUE, r |-> 0, n |-> have]
      ELSE LET bs == SubSeq(d, p, p + n - 1)
               r == Utf8Value(bs)
           IN  [ok |-> (\A i \in 2..n : IsCont(bs[i])) /\ r >= Utf8Min(n) /\ IsScalar(r), short |-> FALSE, r |-> r, n |-> n]

Utf8Encode(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

RECURSIVE Utf8EncodeAll(_)
Utf8EncodeAll(rs) == IF rs = << >> THEN << >> ELSE Utf8Encode(Head(rs)) \o Utf8EncodeAll(Tail(rs))
=============================================================================
