----------------------------- MODULE JsonDocMC -----------------------------
(* All short documents over alphabets of tokens that meet every rule of the grammar. *)
EXTENDS JsonDoc, Json, TLC, FiniteSets
CONSTANTS ArrLen, ObjLen, NumLen, StrLen, Mode, Op
VARIABLE toks

Seqs(n, S) == UNION {[1..i -> S] : i \in 0..n}
RECURSIVE Cat(_)
Cat(ts) == IF ts = << >> THEN << >> ELSE Head(ts) \o Cat(Tail(ts))

ArrAlpha == {<<91>>, <<93>>, <<44>>, <<49>>}                                               \* [ ] , 1
ObjAlpha == {<<123>>, <<125>>, <<34, 97, 34>>, <<58>>, <<44>>, <<49>>}                     \* { } "a" : , 1
NumAlpha == {<<45>>, <<43>>, <<46>>, <<48>>, <<49>>, <<101>>, <<69>>, <<32>>}              \* - + . 0 1 e E blank
\* " \ / b u00 u003  d A 1 a 2-byte character, a control character, the escapes of a high and a low surrogate, of a quote
StrAlpha == {<<34>>, <<92>>, <<98>>, <<92, 117, 48, 48>>, <<50, 50>>, <<100, 65>>, <<49>>, <<195, 169>>, <<31>>, <<127>>,
             <<92, 117, 68, 56, 51, 68>>, <<92, 117, 100, 101, 48, 48>>, <<92, 117, 48, 48, 50, 50>>, <<92, 110>>}
Words == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>, <<116, 114, 117>>, <<110, 117, 108, 108, 108>>, <<70>>,
          <<44>>, <<93>>, <<32>>, <<10>>, <<9>>, <<12>>, <<160>>, <<239, 187, 191>>, <<195>>}

Alpha == CASE Mode = "arr" -> ArrAlpha [] Mode = "obj" -> ObjAlpha [] Mode = "num" -> NumAlpha [] Mode = "str" -> StrAlpha [] Mode = "word" -> Words
MaxLen == CASE Mode = "arr" -> ArrLen [] Mode = "obj" -> ObjLen [] Mode = "num" -> NumLen [] Mode = "str" -> StrLen [] Mode = "word" -> 3
\* the documents made of the tokens t
Docs(t) == CASE Mode \in {"arr", "obj"} -> {Cat(t)}
             [] Mode = "num" -> {<<91>> \o Cat(t) \o <<93>>, <<91>> \o Cat(t)}
             [] Mode = "str" -> {<<91, 34>> \o Cat(t) \o <<34, 93>>, <<123, 34>> \o Cat(t) \o <<34, 58, 49, 125>>}
             [] Mode = "word" -> {<<91>> \o Cat(t) \o <<93>>}
                                 \cup (IF Len(t) = 2 THEN {t[1] \o <<91, 93>> \o t[2], <<123, 34, 97, 34>> \o t[1] \o <<58>> \o t[2] \o <<125>>} ELSE {})

\* the documents are built token by token, up to two tokens beyond what makes it impossible to go on
Opening == CASE Mode = "num" -> <<91>> [] Mode = "str" -> <<91, 34>> [] OTHER -> << >>
Viable(t) == Mode = "word" \/ t = << >> \/ Document(DecodeAll(Opening \o Cat(SubSeq(t, 1, Len(t) - 1)), 0, "EOI", << >>, << >>).rs).k # "bad"
Init == JsonInit /\ toks = << >>
Next == Len(toks) < MaxLen /\ Viable(toks) /\ (\E x \in Alpha : toks' = Append(toks, x)) /\ UNCHANGED j
Spec == Init /\ [][Next]_<<j, toks>>

Expect(data) ==
  LET d == DecodeAll(data, 0, "EOI", << >>, << >>)
      r == Document(d.rs)
      es == Endings(r.k, d.tail) \ {"EOI"}
  IN  IF r.k = "ok" /\ d.tail = {"EOI"} THEN [v |-> r.v, e |-> ""] ELSE [v |-> << >>, e |-> IF es = {"utf8"} THEN "utf8" ELSE "err"]
\* an error for either of two reasons is not replayed, the random cases have those
Definite(data) == LET d == DecodeAll(data, 0, "EOI", << >>, << >>) IN Document(d.rs).k # "bad" \/ d.tail = {"EOI"}

NoRes == [v |-> << >>, e |-> "", c |-> 0]
Behaviour(data) ==
  IF Op = "parse"
  THEN [id |-> "mc", ops |-> <<[op |-> "parse", data |-> data, end |-> "EOI", chunks |-> <<Len(data)>>, res |-> Expect(data)]>>]
  ELSE LET n == Len(Contents(DecodeAll(data, 0, "EOI", << >>, << >>).rs).els)
       IN  [id |-> "mc", ops |-> <<[op |-> "iterate", data |-> data, end |-> "EOI", chunks |-> [i \in 1..Len(data) |-> i], res |-> NoRes]>>
                                 \o [i \in 1..(n + 2) |-> [op |-> "next", res |-> NoRes]]]
Emit == \A data \in Docs(toks) : (Op = "iterate" \/ Definite(data)) => PrintT("BEHAVIOUR " \o ToJson(Behaviour(data)))

\* ---- properties of the design: what iterating delivers is what parsing yields; a document that is complete stays so
\* only if whitespace follows; a prefix of a document is never bad
RsOf(data) == DecodeAll(data, 0, "EOI", << >>, << >>).rs
Agree == \A data \in Docs(toks) : Expect(data).e = "" =>
  LET rs == RsOf(data)
      ct == Contents(rs)
      doc == Document(rs)
  IN  /\ ct.k = "ok" /\ ct.must = Len(ct.els)
      /\ doc.v = IF rs[SkipWs(rs, 1)] = 91 THEN VArr([i \in DOMAIN ct.els |-> ct.els[i].v]) ELSE ct.els[1].v
      /\ \A i \in 1..(Len(rs) - 1) : Document(SubSeq(rs, 1, i)).k # "bad"
      /\ Document(rs \o <<44>>).k = "bad" /\ Document(rs \o <<10>>).v = doc.v
\* iterating never delivers fewer than the elements that are certain, nor more than parsing finds
Bounded == \A data \in Docs(toks) : LET ct == Contents(RsOf(data)) IN ct.must <= Len(ct.els) /\ Len(ct.els) <= ct.must + 1
=============================================================================
