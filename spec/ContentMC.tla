----------------------------- MODULE ContentMC -----------------------------
(* All small bodies with all types of content, compressed or not *)
EXTENDS Content, Json, TLC
CONSTANT TextLen
VARIABLE op
Types == {"text/csv", "application/json", "text/plain", "", "application/xml"}
Cells == {<< >>, <<97>>, <<44>>, <<34>>, <<10>>, <<32, 195, 169>>}
Texts == UNION {[1..n -> {97, 44, 34, 10, 32}] : n \in 0..TextLen}
Docs == {<<91, 93>>, <<123, 125>>, <<91, 49, 44, 34, 233, 34, 93>>, <<91, 49, 44>>, << >>, <<123, 34, 97, 34, 58, 91, 93, 125, 32>>, <<110, 117, 108, 108>>}
Gz == {"", "gzip"}
None == [op |-> "none"]
Blank == [v |-> << >>, e |-> "", c |-> 0]
Nexts(n) == [i \in 1..n |-> [op |-> "next", res |-> Blank]]
Init == ContentInit /\ op = None
Pick(o) == op' = o /\ UNCHANGED <<j, q>>
Next == /\ op = None
        /\ \/ \E g \in Gz, d \in Docs : Pick([op |-> "body", data |-> d, gz |-> g])
           \/ \E g \in Gz, t \in Types, n \in 0..2 : \E rows \in [1..n -> {<<a, b>> : a, b \in Cells}] : Pick([op |-> "csv", ctype |-> t, data |-> CsvRender(rows), gz |-> g])
           \/ \E g \in Gz, s \in Texts : Pick([op |-> "csv", ctype |-> "text/csv", data |-> s, gz |-> g])
           \/ \E g \in Gz, t \in Types, d \in Docs : Pick([op |-> "json", ctype |-> t, data |-> d, gz |-> g])
Spec == Init /\ [][Next]_<<j, q, op>>
Want(o) == (o.op = "csv" /\ o.ctype = "text/csv") \/ (o.op = "json" /\ o.ctype = "application/json")
Emit == op # None => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<op>> \o IF Want(op) THEN Nexts(4) ELSE << >>]))
=============================================================================
