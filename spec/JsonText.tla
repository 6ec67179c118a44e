------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The grammar of JSON (RFC 8259), as a parser over sequences of code      *)
(* points.  A parse result is [k, v, n]: k is "ok" (v is the value, n the  *)
(* position after it), "short" (the text ends although more is needed) or  *)
(* "bad" (no continuation of the text up to n makes it JSON).              *)
(*                                                                         *)
(* Values are written as flat sequences of integers, which makes them      *)
(* comparable: null <<0>>, false <<1>>, true <<2>>, a number               *)
(* <<3, length, its characters...>>, a string <<4, length, its code        *)
(* points...>>, an array <<5, length, its elements...>>, an object         *)
(* <<6, length, for each key in ascending order: length of the key, its    *)
(* code points..., its value...>>.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VNull == <<0>>
VFalse == <<1>>
VTrue == <<2>>
VNum(cs) == <<3, Len(cs)>> \o cs
VStr(cs) == <<4, Len(cs)>> \o cs

IsWs(r) == r \in {9, 10, 13, 32}
IsDigit(r) == r >= 48 /\ r <= 57
HexOf(r) == IF IsDigit(r) THEN r - 48 ELSE IF r >= 65 /\ r <= 70 THEN r - 55 ELSE IF r >= 97 /\ r <= 102 THEN r - 87 ELSE -1

RECURSIVE SkipWs(_, _)
SkipWs(rs, p) == IF p <= Len(rs) /\ IsWs(rs[p]) THEN SkipWs(rs, p + 1) ELSE p

Ok(v, n) == [k |-> "ok", v |-> v, n |-> n]
Short(rs) == [k |-> "short", v |-> << >>, n |-> Len(rs) + 1]
Bad(n) == [k |-> "bad", v |-> << >>, n |-> n]

\* true, false, null: word is the sequence of characters
RECURSIVE Literal(_, _, _, _, _)
Literal(rs, p, word, i, v) ==
  IF i > Len(word) THEN Ok(v, p)
  ELSE IF p > Len(rs) THEN Short(rs)
  ELSE IF rs[p] = word[i] THEN Literal(rs, p + 1, word, i + 1, v) ELSE Bad(p)

\* ---- numbers: -? (0 | [1-9][0-9]*) ([.][0-9]+)? ([eE][+-]?[0-9]+)?
RECURSIVE SkipDigits(_, _)
SkipDigits(rs, p) == IF p <= Len(rs) /\ IsDigit(rs[p]) THEN SkipDigits(rs, p + 1) ELSE p
\* at least one digit at p: [k, n]
Digits1(rs, p) == IF p > Len(rs) THEN Short(rs) ELSE IF ~IsDigit(rs[p]) THEN Bad(p) ELSE Ok(<< >>, SkipDigits(rs, p))
IntPart(rs, p) ==
  IF p > Len(rs) THEN Short(rs)
  ELSE IF rs[p] = 48 THEN (IF p < Len(rs) /\ IsDigit(rs[p + 1]) THEN Bad(p + 1) ELSE Ok(<< >>, p + 1))
  ELSE Digits1(rs, p)
FracPart(rs, p) == IF p <= Len(rs) /\ rs[p] = 46 THEN Digits1(rs, p + 1) ELSE Ok(<< >>, p)
ExpPart(rs, p) ==
  IF p <= Len(rs) /\ rs[p] \in {69, 101}
  THEN LET q == IF p < Len(rs) /\ rs[p + 1] \in {43, 45} THEN p + 2 ELSE p + 1 IN Digits1(rs, q)
  ELSE Ok(<< >>, p)
Number(rs, p) ==
  LET a == IntPart(rs, IF rs[p] = 45 THEN p + 1 ELSE p) IN
  IF a.k # "ok" THEN a
  ELSE LET b == FracPart(rs, a.n) IN
       IF b.k # "ok" THEN b
       ELSE LET c == ExpPart(rs, b.n) IN
            IF c.k # "ok" THEN c ELSE Ok(VNum(SubSeq(rs, p, c.n - 1)), c.n)
IsNumberText(rs) == rs # << >> /\ (rs[1] = 45 \/ IsDigit(rs[1])) /\ LET r == Number(rs, 1) IN r.k = "ok" /\ r.n = Len(rs) + 1

\* ---- strings
IsHigh(h) == h >= 55296 /\ h <= 56319
IsLow(h) == h >= 56320 /\ h <= 57343
Combine(hi, lo) == 65536 + (hi - 55296) * 1024 + (lo - 56320)
\* the four hexadecimal digits at p: v is the one number
RECURSIVE Hex4(_, _, _, _)
Hex4(rs, p, i, acc) ==
  IF i = 4 THEN Ok(<<acc>>, p)
  ELSE IF p > Len(rs) THEN Short(rs)
  ELSE IF HexOf(rs[p]) < 0 THEN Bad(p) ELSE Hex4(rs, p + 1, i + 1, acc * 16 + HexOf(rs[p]))

Escaped == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* the escape sequence whose backslash is at p: v is the one code point. Two surrogates in either order form a pair.
Escape(rs, p) ==
  IF p + 1 > Len(rs) THEN Short(rs)
  ELSE IF rs[p + 1] \in DOMAIN Escaped THEN Ok(<<Escaped[rs[p + 1]]>>, p + 2)
  ELSE IF rs[p + 1] # 117 THEN Bad(p + 1)
  ELSE LET a == Hex4(rs, p + 2, 0, 0) IN
       IF a.k # "ok" \/ ~(IsHigh(a.v[1]) \/ IsLow(a.v[1])) THEN a
       ELSE IF a.n > Len(rs) THEN Short(rs)
       ELSE IF rs[a.n] # 92 THEN Bad(a.n)
       ELSE IF a.n + 1 > Len(rs) THEN Short(rs)
       ELSE IF rs[a.n + 1] # 117 THEN Bad(a.n + 1)
       ELSE LET b == Hex4(rs, a.n + 2, 0, 0) IN
            IF b.k # "ok" THEN b
            ELSE IF IsHigh(a.v[1]) /\ IsLow(b.v[1]) THEN Ok(<<Combine(a.v[1], b.v[1])>>, b.n)
            ELSE IF IsLow(a.v[1]) /\ IsHigh(b.v[1]) THEN Ok(<<Combine(b.v[1], a.v[1])>>, b.n)
            ELSE Bad(b.n - 1)

\* the rest of a string from p on: v is the sequence of code points
RECURSIVE Chars(_, _, _)
Chars(rs, p, acc) ==
  IF p > Len(rs) THEN Short(rs)
  ELSE IF rs[p] = 34 THEN Ok(acc, p + 1)
  ELSE IF rs[p] < 32 THEN Bad(p)
  ELSE IF rs[p] # 92 THEN Chars(rs, p + 1, Append(acc, rs[p]))
  ELSE LET e == Escape(rs, p) IN IF e.k # "ok" THEN e ELSE Chars(rs, e.n, acc \o e.v)

\* ---- arrays and objects
RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) == IF i > Len(a) THEN i <= Len(b) ELSE IF i > Len(b) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE SeqLess(a, b, i + 1)
\* members in ascending order of their keys
RECURSIVE PutMember(_, _)
PutMember(ms, m) == IF ms = << >> THEN <<m>>
                    ELSE IF SeqLess(m.key, Head(ms).key, 1) THEN <<m>> \o ms ELSE <<Head(ms)>> \o PutMember(Tail(ms), m)
RECURSIVE FlatMembers(_)
FlatMembers(ms) == IF ms = << >> THEN << >> ELSE <<Len(Head(ms).key)>> \o Head(ms).key \o Head(ms).v \o FlatMembers(Tail(ms))
VObj(ms) == <<6, Len(ms)>> \o FlatMembers(ms)
RECURSIVE FlatAll(_)
FlatAll(vs) == IF vs = << >> THEN << >> ELSE Head(vs) \o FlatAll(Tail(vs))
VArr(vs) == <<5, Len(vs)>> \o FlatAll(vs)

RECURSIVE Value(_, _), Elements(_, _, _), Members(_, _, _)
\* a value that starts exactly at p
Value(rs, p) ==
  IF p > Len(rs) THEN Short(rs)
  ELSE CASE rs[p] = 123 -> LET q == SkipWs(rs, p + 1) IN
                           IF q <= Len(rs) /\ rs[q] = 125 THEN Ok(VObj(<< >>), q + 1) ELSE Members(rs, q, << >>)
         [] rs[p] = 91 -> LET q == SkipWs(rs, p + 1) IN
                          IF q <= Len(rs) /\ rs[q] = 93 THEN Ok(VArr(<< >>), q + 1)
                          ELSE LET r == Elements(rs, q, << >>) IN
                               IF r.k = "ok" THEN Ok(VArr([i \in DOMAIN r.v |-> r.v[i].v]), r.n) ELSE [r EXCEPT !.v = << >>]
         [] rs[p] = 34 -> LET r == Chars(rs, p + 1, << >>) IN IF r.k = "ok" THEN Ok(VStr(r.v), r.n) ELSE r
         [] rs[p] = 116 -> Literal(rs, p, <<116, 114, 117, 101>>, 1, VTrue)
         [] rs[p] = 102 -> Literal(rs, p, <<102, 97, 108, 115, 101>>, 1, VFalse)
         [] rs[p] = 110 -> Literal(rs, p, <<110, 117, 108, 108>>, 1, VNull)
         [] rs[p] = 45 \/ IsDigit(rs[p]) -> Number(rs, p)
         [] OTHER -> Bad(p)

\* elements from p on, up to the closing bracket. In every result v is the sequence of the complete elements so far, each
\* with the position n after it, and the position d of what follows (beyond the text if nothing does)
Elements(rs, p, acc) ==
  LET r == Value(rs, p) IN
  IF r.k # "ok" THEN [r EXCEPT !.v = acc]
  ELSE LET q == SkipWs(rs, r.n)
           acc2 == Append(acc, [v |-> r.v, n |-> r.n, d |-> q])
       IN  IF q > Len(rs) THEN [Short(rs) EXCEPT !.v = acc2]
           ELSE IF rs[q] = 93 THEN [k |-> "ok", v |-> acc2, n |-> q + 1]
           ELSE IF rs[q] = 44 THEN Elements(rs, SkipWs(rs, q + 1), acc2)
           ELSE [Bad(q) EXCEPT !.v = acc2]

\* key : value pairs from p on, up to the closing brace
Members(rs, p, acc) ==
  IF p > Len(rs) THEN Short(rs)
  ELSE IF rs[p] # 34 THEN Bad(p)
  ELSE LET key == Chars(rs, p + 1, << >>) IN
       IF key.k # "ok" THEN [key EXCEPT !.v = << >>]
       ELSE IF \E i \in DOMAIN acc : acc[i].key = key.v THEN Bad(key.n - 1)
       ELSE LET c == SkipWs(rs, key.n) IN
            IF c > Len(rs) THEN Short(rs)
            ELSE IF rs[c] # 58 THEN Bad(c)
            ELSE LET r == Value(rs, SkipWs(rs, c + 1)) IN
                 IF r.k # "ok" THEN r
                 ELSE LET q == SkipWs(rs, r.n)
                          acc2 == PutMember(acc, [key |-> key.v, v |-> r.v])
                      IN  IF q > Len(rs) THEN Short(rs)
                          ELSE IF rs[q] = 125 THEN Ok(VObj(acc2), q + 1)
                          ELSE IF rs[q] = 44 THEN Members(rs, SkipWs(rs, q + 1), acc2)
                          ELSE Bad(q)

\* ---- documents: an object or array, with whitespace before and after
Trailer(rs, r) == LET q == SkipWs(rs, r.n) IN IF q <= Len(rs) THEN Bad(q) ELSE r
Document(rs) ==
  LET p == SkipWs(rs, 1) IN
  IF p > Len(rs) THEN Short(rs)
  ELSE IF rs[p] \notin {91, 123} THEN Bad(p)
  ELSE LET r == Value(rs, p) IN IF r.k = "ok" THEN Trailer(rs, r) ELSE r
=============================================================================
