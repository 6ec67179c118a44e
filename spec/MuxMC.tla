------------------------------- MODULE MuxMC -------------------------------
(* All small tables of registrations, all requests over a few paths *)
EXTENDS Mux, Json, TLC
CONSTANTS MaxRegs
VARIABLE ops
L(s) == <<"lit", s>>
Pat(from, to, parts) == [from |-> from, to |-> to, parts |-> parts]
A == <<47, 97>>                 \* /a
AB == <<47, 97, 47, 98>>        \* /a/b
Pats == {Pat(TRUE, TRUE, <<L(A)>>), Pat(TRUE, FALSE, <<L(A)>>), Pat(FALSE, TRUE, <<L(<<98>>)>>), Pat(FALSE, FALSE, <<L(A)>>),
         Pat(TRUE, TRUE, <<L(A), L(<<47>>), <<"seg">>>>), Pat(TRUE, FALSE, <<L(<<47>>), <<"num">>, L(<<47>>), <<"seg">>>>), Pat(FALSE, FALSE, <<<<"num">>>>),
         Pat(TRUE, TRUE, <<L(<<47>>), <<"uuid">>>>)}
Hex == [i \in 1..36 |-> IF i \in Dashes THEN 45 ELSE IF i % 3 = 0 THEN 97 ELSE IF i % 3 = 1 THEN 70 ELSE 48]
Paths == {A, AB, << >>, <<47>>, <<47, 65>>, <<120>> \o A, <<47, 49, 47, 120, 49>>, <<47, 49>>, <<47, 97, 47>>, <<47>> \o Hex, <<47>> \o SubSeq(Hex, 1, 35), <<47>> \o Hex \o <<48>>}
Methods == {"GET", "PUT"}
Requests == {<<m, p>> : m \in {"GET", "PUT", "get"}, p \in Paths}
Init == MuxInit /\ ops = << >>
Next == \/ /\ Len(mux) < MaxRegs
           /\ \E m \in Methods, p \in Pats : LET reg == [m |-> m, pat |-> p, h |-> ToString(Len(mux) + 1)] IN
                Handle(reg, FALSE, "") /\ ops' = Append(ops, [op |-> "handle", reg |-> reg, bad |-> "", res |-> ""])
        \/ /\ Len(ops) = Len(mux) /\ Len(mux) < MaxRegs
           /\ \E b \in {"method", "pattern", "handler", "regex"} : LET reg == [m |-> "GET", pat |-> Pat(TRUE, FALSE, <<L(A)>>), h |-> "x"] IN
                Handle(reg, TRUE, "err") /\ ops' = Append(ops, [op |-> "handle", reg |-> reg, bad |-> b, res |-> "err"])
Spec == Init /\ [][Next]_<<mux, ops>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
AllRequests == SeqOf(Requests)
Asked == [i \in DOMAIN AllRequests |-> [op |-> "request", m |-> AllRequests[i][1], path |-> AllRequests[i][2], res |-> Answer(mux, AllRequests[i][1], AllRequests[i][2])]]
Emit == PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops \o Asked]))
\* the answer is 200 exactly if some registration matches; adding one changes no answer of 200, and turns no 405 into 404
Sound == \A r \in Requests :
  LET a == Answer(mux, r[1], r[2]) IN
  /\ (a.status = 200) = (\E i \in DOMAIN mux : mux[i].m = r[1] /\ Matches(mux[i].pat, r[2]).ok)
  /\ (a.status = 404) = (\A i \in DOMAIN mux : ~Matches(mux[i].pat, r[2]).ok)
  /\ mux # << >> => LET b == Answer(SubSeq(mux, 1, Len(mux) - 1), r[1], r[2]) IN (b.status = 200 => a = b) /\ (b.status = 405 => a.status # 404)
=============================================================================
