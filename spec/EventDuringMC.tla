--------------------------- MODULE EventDuringMC ---------------------------
(* All small registries, a send with all small sequences of calls that receivers make during it, and a send afterwards *)
EXTENDS Event, Json, TLC
CONSTANTS Ids, MaxRegs, MaxActs, MaxAt
VARIABLES regs, acts, final
Act(op, id, r, all, at) == [op |-> op, id |-> id, r |-> r, all |-> all, at |-> at]
Acts == UNION {{Act("register", id, r, FALSE, at), Act("remove", id, r, FALSE, at), Act("remove", id, r, TRUE, at), Act("removeid", id, r, FALSE, at), Act("send", id, r, FALSE, at)} :
                 id \in Ids, r \in Receivers, at \in 1..MaxAt}
AnyR == CHOOSE r \in Receivers : TRUE
AnyId == CHOOSE id \in Ids : TRUE
\* one of those that differ in an argument that does not matter
Canonical == {a \in Acts : (a.op \in {"removeid", "send"} => a.r = AnyR) /\ (a.op = "send" => a.id = AnyId)}
Init == EventInit /\ regs = << >> /\ acts = << >> /\ final = FALSE
Next == /\ UNCHANGED reg /\ ~final
        /\ \/ acts = << >> /\ Len(regs) < MaxRegs /\ \E id \in Ids, r \in Receivers : regs' = Append(regs, [op |-> "register", id |-> id, r |-> r]) /\ UNCHANGED <<acts, final>>
           \/ regs # << >> /\ Len(acts) < MaxActs /\ \E a \in Canonical : (acts # << >> => acts[Len(acts)].at <= a.at) /\ a.at <= Len(regs) + 1 /\ acts' = Append(acts, a) /\ UNCHANGED <<regs, final>>
           \/ acts # << >> /\ final' = TRUE /\ UNCHANGED <<regs, acts>>
Spec == Init /\ [][Next]_<<reg, regs, acts, final>>
Emit == final => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> regs \o <<[op |-> "sendin", acts |-> acts], [op |-> "send"]>>]))
\* ---- the specification allows a send that delivers to what was registered when it began, and one to what is registered in
\* the end (but for tags that can not be told apart)
Start == FoldLeft(LAMBDA f, o : Put(f, o.id, (IF o.id \in DOMAIN f THEN f[o.id] ELSE << >>) \o <<o.r>>), << >>, regs)
Back == Untagged(Tagged(Start)) = Start
=============================================================================
