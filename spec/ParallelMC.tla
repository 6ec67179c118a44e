----------------------------- MODULE ParallelMC -----------------------------
(* All interleavings of the threads, for all ways to divide small sources; every interleaving becomes a schedule that the
   driver makes the real threads follow *)
EXTENDS Parallel, Json, TLC
CONSTANTS MaxItems
VARIABLES sched
S(k, p) == [k |-> k, p |-> p]
Chains == {<<S("map", <<2, 1>>)>>, <<S("maperr", <<2, 1>>)>>, <<S("maperrs", <<2, 0>>)>>, <<S("maperrs", <<1, 0>>)>>, <<S("filter", <<2, 1>>)>>, <<S("mapslice", <<3>>), S("expand", << >>)>>,
           <<S("mapslice", <<3>>), S("expand", << >>), S("maperr", <<5, 0>>)>>, <<S("mapslice", <<3>>)>>}
Configs == {<<"none", 0>>} \cup {<<u, n>> : u \in {"threads", "items"}, n \in 0..3}
Init == StreamInit /\ ParInit /\ sched = << >>
Next ==
  /\ UNCHANGED svars
  /\ \/ \E ss \in Chains, c \in Configs, n \in 2..MaxItems :
          \* a single thread for N or fewer elements is allowed as well: not enumerated here
          /\ ~(c[1] = "threads" /\ n <= c[2])
          /\ Begin(ss, c[1], c[2], [i \in 1..n |-> i]) /\ sched' = << >>
     \/ \E t \in DOMAIN thr : Process(t) /\ sched' = Append(sched, Head(thr[t].in))
     \/ \E t \in DOMAIN thr : Finish(t) /\ UNCHANGED sched
     \/ Join /\ UNCHANGED sched
Spec == Init /\ [][Next]_<<svars, pvars, sched>>
Emit == phase = "joined" =>
  PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> <<[op |-> "parallel", stages |-> job.stages, unit |-> job.unit, n |-> job.n, items |-> job.items,
                                                         end |-> "EOI", any |-> FALSE, sched |-> sched, res |-> [vs |-> Result.vs, e |-> Result.e]]>>]))
=============================================================================
