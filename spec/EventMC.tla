------------------------------ MODULE EventMC ------------------------------
(* Exhaustive exploration of Event with small constants, and generation of behaviours for replay: hist records every call
   with the result the specification demands. *)
EXTENDS Event, Json, TLC
CONSTANTS Ids, MaxOps
VARIABLES hist

D(r) == Delivery(reg)
Log(o) == hist' = Append(hist, o)

Init == EventInit /\ hist = <<[op |-> "kind", key |-> "int", res |-> << >>]>>

Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E id \in Ids, r \in Receivers :
          Register(id, r, << >>) /\ Log([op |-> "register", id |-> id, r |-> r, res |-> << >>])
     \/ \E id \in Ids, r \in Receivers, all \in BOOLEAN :
          /\ RemoveReceiver(id, r, all, << >>)
          /\ Log([op |-> "remove", id |-> id, r |-> r, all |-> all, res |-> << >>])
     \/ \E id \in Ids : RemoveId(id, << >>) /\ Log([op |-> "removeid", id |-> id, res |-> << >>])

Spec == Init /\ [][Next]_<<reg, hist>>

\* every behaviour is followed by a Send, whose result the specification determines
Emit == (Len(hist) = MaxOps) => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> Append(hist, [op |-> "send", res |-> Delivery(reg)])]))

NoHist == reg
Bounded == \A id \in DOMAIN reg : Len(reg[id]) <= 3
=============================================================================
