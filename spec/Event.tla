------------------------------- MODULE Event -------------------------------
(***************************************************************************)
(* The event registry (package event, on top of the ordered tuple map of   *)
(* package funcs).  The abstract state is, for every operation id, the     *)
(* sequence of receivers registered for it.  Every public call is one      *)
(* action; a Send passes the event value through every receiver, which is  *)
(* observable as the sequence of receivers that processed it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Receivers          \* the receivers a client may register

VARIABLES reg                \* function from ids to non-empty sequences of receivers

vars == <<reg>>

EventInit == reg = << >>     \* the zero value: no ids at all

Known(id) == id \in DOMAIN reg

Drop(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]

\* Put the sequence s under id; an id without receivers is the same as an absent id
Put(f, id, s) == IF s = << >> THEN Drop(f, id)
                 ELSE [i \in DOMAIN f \cup {id} |-> IF i = id THEN s ELSE f[i]]

RECURSIVE SortedIds(_)
SortedIds(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN  <<m>> \o SortedIds(S \ {m})

\* The order of delivery: ascending id, and registration order within one id
Delivery(f) == LET ids == SortedIds(DOMAIN f)
               IN  FlattenSeq([i \in 1..Len(ids) |-> f[ids[i]]])

RemoveFirst1(s, r) == LET hits == {i \in 1..Len(s) : s[i] = r}
                      IN  IF hits = {} THEN s
                          ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y
                               IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Register(id, r, res) ==
  /\ reg' = Put(reg, id, (IF Known(id) THEN reg[id] ELSE << >>) \o <<r>>)
  /\ res = << >>

RemoveReceiver(id, r, all, res) ==
  /\ reg' = IF ~Known(id) THEN reg
            ELSE IF all THEN Put(reg, id, SelectSeq(reg[id], LAMBDA x : x # r))
            ELSE Put(reg, id, RemoveFirst1(reg[id], r))
  /\ res = << >>

RemoveId(id, res) ==
  /\ reg' = Drop(reg, id)
  /\ res = << >>

\* Sending does not change the registry, whatever the receivers are
Send(res) ==
  /\ res = Delivery(reg)
  /\ UNCHANGED reg

\* ---- a receiver may call the registry while it processes an event: register, remove, or send another event. The send in
\* progress delivers to every registration that was made before it and not removed during it; it may or may not deliver to
\* those made or removed during it. Registrations are told apart by tags: <<id, tag, receiver>>
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Tagged(f) == UNION {{<<id, i, f[id][i]>> : i \in DOMAIN f[id]} : id \in DOMAIN f}
Ordered(T) == SetToSortSeq(T, Before)
NamesOf(T) == LET s == Ordered(T) IN [i \in DOMAIN s |-> s[i][3]]
Untagged(T) == [id \in {x[1] : x \in T} |-> NamesOf({x \in T : x[1] = id})]
Of(T, id, r) == {x \in T : x[1] = id /\ x[3] = r}
Removed(T, a) == CASE a.op = "removeid" -> {x \in T : x[1] = a.id}
                   [] a.op = "remove" /\ a.all -> Of(T, a.id, a.r)
                   [] a.op = "remove" /\ ~a.all -> LET O == Of(T, a.id, a.r) IN {x \in O : \A y \in O : x[2] <= y[2]}
                   [] OTHER -> {}
Within(s, a) ==
  IF ~a.done THEN s
  ELSE LET gone == Removed(s.now, a)
           new == IF a.op = "register" THEN {<<a.id, s.fresh, a.r>>} ELSE {}
       IN  [now |-> (s.now \ gone) \cup new, may |-> s.may \cup new, must |-> s.must \ gone, fresh |-> s.fresh + 1,
            ok |-> s.ok /\ (a.op = "send" => a.res = NamesOf(s.now))]
SendDuring(acts, res) ==
  LET T == Tagged(reg)
      e == FoldLeft(Within, [now |-> T, may |-> T, must |-> T, fresh |-> 1000, ok |-> TRUE], acts)
  IN  /\ e.ok
      /\ \A i \in DOMAIN acts : acts[i].done <=> acts[i].at <= Len(res)
      /\ \E X \in SUBSET (e.may \ e.must) : NamesOf(e.must \cup X) = res
      /\ reg' = Untagged(e.now)

-----------------------------------------------------------------------------
\* Properties of the design

TypeOK == /\ \A id \in DOMAIN reg : reg[id] # << >> /\ \A i \in 1..Len(reg[id]) : reg[id][i] \in Receivers

Count(s, r) == Cardinality({i \in 1..Len(s) : s[i] = r})

RECURSIVE SumOver(_, _)
SumOver(S, r) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN Count(reg[x], r) + SumOver(S \ {x}, r)

\* Nothing is lost and nothing is delivered twice: every receiver processes an event as often as it is registered
DeliveredOften == \A r \in Receivers : Count(Delivery(reg), r) = SumOver(DOMAIN reg, r)

\* Everything registered for a smaller id comes first
DeliveredOrder ==
  \A a, b \in DOMAIN reg : a < b =>
     LET ids == SortedIds(DOMAIN reg)
         ia == CHOOSE i \in 1..Len(ids) : ids[i] = a
         ib == CHOOSE i \in 1..Len(ids) : ids[i] = b
     IN  ia < ib
=============================================================================
