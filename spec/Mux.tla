--------------------------------- MODULE Mux ---------------------------------
(***************************************************************************)
(* Routing of requests: the handler of the first registration whose method *)
(* is that of the request and whose pattern matches its path is called     *)
(* with the matched parts; otherwise the answer is 405 if some pattern     *)
(* matches, else 404.  Registrations take effect at once, also while       *)
(* requests are being served.                                              *)
(*                                                                         *)
(* A pattern is [from, to, parts]: whether it is bound to the start and to *)
(* the end of the path, and its parts, <<"lit", characters>>, and the      *)
(* groups <<"seg">> (characters other than /), <<"num">> (digits) and      *)
(* <<"uuid">>, each at least one character.  A segment is followed by a    *)
(* literal that starts with / or by nothing, a number by one that starts   *)
(* with no digit or by nothing, so that patterns match in one way only.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE mux     \* the registrations [m, pat, h]: method, pattern, name of the handler
MuxInit == mux = << >>

IsDigitC(c) == c >= 48 /\ c <= 57
IsHexC(c) == IsDigitC(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
\* the end (exclusive) of the longest run from p on of characters of a kind
RECURSIVE Run(_, _, _)
Run(s, p, kind) == IF p <= Len(s) /\ (IF kind = "seg" THEN s[p] # 47 ELSE IsDigitC(s[p])) THEN Run(s, p + 1, kind) ELSE p
Dashes == {9, 14, 19, 24}
IsUuid(s, p) == /\ p + 35 <= Len(s)
                /\ \A i \in 1..36 : IF i \in Dashes THEN s[p + i - 1] = 45 ELSE IsHexC(s[p + i - 1])

No == [ok |-> FALSE, groups |-> << >>, n |-> 0]
\* matching the parts from the i-th on at position p
RECURSIVE MatchParts(_, _, _, _, _)
MatchParts(pat, i, s, p, groups) ==
  IF i > Len(pat.parts) THEN (IF pat.to /\ p # Len(s) + 1 THEN No ELSE [ok |-> TRUE, groups |-> groups, n |-> p])
  ELSE LET part == pat.parts[i] IN
       CASE part[1] = "lit" -> LET q == p + Len(part[2]) IN
                               IF q - 1 <= Len(s) /\ SubSeq(s, p, q - 1) = part[2] THEN MatchParts(pat, i + 1, s, q, groups) ELSE No
         [] part[1] = "uuid" -> IF IsUuid(s, p) THEN MatchParts(pat, i + 1, s, p + 36, Append(groups, SubSeq(s, p, p + 35))) ELSE No
         [] OTHER -> LET q == Run(s, p, part[1]) IN IF q > p THEN MatchParts(pat, i + 1, s, q, Append(groups, SubSeq(s, p, q - 1))) ELSE No

\* the leftmost match: [ok, parts], the first part is all of the matched text
Matches(pat, s) ==
  LET starts == {p \in 1..(IF pat.from THEN 1 ELSE Len(s) + 1) : MatchParts(pat, 1, s, p, << >>).ok} IN
  IF starts = {} THEN [ok |-> FALSE, parts |-> << >>]
  ELSE LET p == CHOOSE p \in starts : \A q \in starts : p <= q
           m == MatchParts(pat, 1, s, p, << >>)
       IN  [ok |-> TRUE, parts |-> <<SubSeq(s, p, m.n - 1)>> \o m.groups]

\* what a request gets: [status, h, parts]
RECURSIVE Scan(_, _, _, _, _)
Scan(table, m, s, i, hit) ==
  IF i > Len(table) THEN [status |-> IF hit THEN 405 ELSE 404, h |-> "", parts |-> << >>]
  ELSE IF hit /\ table[i].m # m THEN Scan(table, m, s, i + 1, hit)
  ELSE LET match == Matches(table[i].pat, s) IN
       IF match.ok /\ table[i].m = m THEN [status |-> 200, h |-> table[i].h, parts |-> match.parts]
       ELSE Scan(table, m, s, i + 1, hit \/ match.ok)
Answer(table, m, s) == Scan(table, m, s, 1, FALSE)

\* registering fails without a method, pattern or handler, and if the pattern is no regular expression
Handle(reg, bad, res) ==
  IF bad THEN res = "err" /\ UNCHANGED mux ELSE res = "" /\ mux' = Append(mux, reg)
Request(m, s, res) == res = Answer(mux, m, s) /\ UNCHANGED mux
\* a handler that registers another one while it serves a request
Reentrant(m, s, reg, res) == res = Answer(mux, m, s) /\ mux' = IF res.status = 200 THEN Append(mux, reg) ELSE mux
\* registrations made one after the other while requests are made: each request finds the ones that were made before it
\* started (lo of them), and perhaps some of those that were started before it ended (hi of them)
Concurrent(regs, reqs) ==
  /\ \A i \in DOMAIN reqs : \E n \in reqs[i].lo .. reqs[i].hi : reqs[i].res = Answer(mux \o SubSeq(regs, 1, n), reqs[i].m, reqs[i].path)
  /\ mux' = mux \o regs
=============================================================================
