------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Parallel streams: the elements of the source are divided into           *)
(* consecutive buckets, every bucket is put through the transforms by a    *)
(* thread of its own, and the results are combined in the order of the     *)
(* buckets.  The threads run interleaved in any way.                       *)
(***************************************************************************)
EXTENDS Stream

VARIABLES job,     \* [stages, unit, n, items, end], or NoJob
          thr,     \* per thread: [in: elements left, in0: all its elements, out, err, live]
          phase    \* "idle", "running", "joined"
pvars == <<job, thr, phase>>

NoJob == [stages |-> << >>, unit |-> "none", n |-> 0, items |-> << >>, end |-> "EOI"]

\* ---- how many elements each bucket gets
RECURSIVE SqrtUp(_, _)
SqrtUp(n, b) == IF (b + 1) * b < n THEN SqrtUp(n, b + 1) ELSE b      \* the largest b with b (b - 1) < n: the rounded square root
RoundedSqrt(n) == SqrtUp(n, 0)

Sizes(unit, n, len) ==
  CASE unit = "threads" ->
         LET t == Min2(len, Max2(1, n)) q == len \div t r == len % t
         IN  [i \in 1..t |-> q + (IF i <= r THEN 1 ELSE 0)]
    [] OTHER ->
         LET b == IF unit = "none" THEN RoundedSqrt(len) ELSE Min2(len, Max2(1, n))
         IN  [i \in 1..(len \div b) |-> b] \o (IF len % b = 0 THEN << >> ELSE <<len % b>>)
\* the documentation and the code disagree about N threads for N or fewer elements: one thread, or one per element
SizeOptions(unit, n, len) == {Sizes(unit, n, len)} \cup (IF unit = "threads" /\ len <= n THEN {<<len>>} ELSE {})

Bucket(items, sizes, i) ==
  LET before == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(sizes, 1, i - 1)) IN SubSeq(items, before + 1, before + sizes[i])

\* ---- what a thread makes of its bucket
Of(seq) == Lst([i \in DOMAIN seq |-> <<seq[i]>>], "EOI")
ThreadMeaning(ss, bucket) == MeansAll(ss, Of(bucket), 1)

\* ---- what the whole makes of the source, whichever way the threads run
Combined(ss, items, sizes) ==
  LET ms == [i \in DOMAIN sizes |-> ThreadMeaning(ss, Bucket(items, sizes, i))]
      bad == {i \in DOMAIN sizes : ms[i].e # "EOI"}
  IN  IF bad # {} THEN Lst(<< >>, ms[CHOOSE i \in bad : \A j \in bad : i <= j].e)
      ELSE Lst(FoldLeft(LAMBDA acc, m : acc \o m.vs, << >>, ms), "EOI")

Outcomes(ss, unit, n, items, end) ==
  IF end # "EOI" THEN {Lst(<< >>, end)}
  ELSE IF items = << >> THEN {Lst(<< >>, "EOI")}                       \* the transforms are not applied to nothing
  ELSE IF Len(items) = 1 THEN LET m == ThreadMeaning(ss, items) IN {m} \cup (IF m.e = "EOI" THEN {} ELSE {Lst(<< >>, m.e)})
  ELSE {Combined(ss, items, sz) : sz \in SizeOptions(unit, n, Len(items))}

-----------------------------------------------------------------------------
\* The machine: stages here have to be elementwise ("map", "maperr", "filter", "mapslice" then "expand")
ParInit == job = NoJob /\ thr = << >> /\ phase = "idle"

Begin(ss, unit, n, items) ==
  /\ phase = "idle"
  /\ job' = [stages |-> ss, unit |-> unit, n |-> n, items |-> items, end |-> "EOI"]
  /\ LET sz == Sizes(unit, n, Len(items)) IN
     thr' = [i \in DOMAIN sz |-> [in |-> Bucket(items, sz, i), in0 |-> Bucket(items, sz, i), out |-> << >>, err |-> "", live |-> TRUE]]
  /\ phase' = "running"

\* thread t takes its next element through the transforms
Process(t) ==
  /\ phase = "running" /\ thr[t].live /\ thr[t].in # << >>
  /\ LET m == MeansAll(job.stages, Of(<<Head(thr[t].in)>>), 1) IN
     thr' = [thr EXCEPT ![t] = [@ EXCEPT !.in = Tail(@), !.out = @ \o m.vs,
                                         !.err = IF m.e = "EOI" THEN "" ELSE m.e,
                                         !.live = (m.e = "EOI")]]
  /\ UNCHANGED <<job, phase>>
Finish(t) == /\ phase = "running" /\ thr[t].live /\ thr[t].in = << >>
             /\ thr' = [thr EXCEPT ![t].live = FALSE] /\ UNCHANGED <<job, phase>>
Join == /\ phase = "running" /\ \A t \in DOMAIN thr : ~thr[t].live
        /\ phase' = "joined" /\ UNCHANGED <<job, thr>>

Result ==
  LET bad == {t \in DOMAIN thr : thr[t].err # ""}
  IN  IF bad # {} THEN Lst(<< >>, thr[CHOOSE t \in bad : \A u \in bad : t <= u].err)
      ELSE Lst(FoldLeft(LAMBDA acc, x : acc \o x.out, << >>, thr), "EOI")

-----------------------------------------------------------------------------
\* the outcome does not depend on the schedule
ScheduleIndependent == phase = "joined" => Result = Combined(job.stages, job.items, Sizes(job.unit, job.n, Len(job.items)))
\* every element goes to exactly one thread, in order
Partitioned == phase = "running" => FoldLeft(LAMBDA acc, x : acc \o x.in0, << >>, thr) = job.items
\* bucket sizes are as documented
Balanced == phase = "running" =>
  LET L(i) == Len(thr[i].in0) IN
  /\ \A i \in DOMAIN thr : L(i) > 0
  /\ job.unit = "threads" => \A i, j \in DOMAIN thr : L(i) - L(j) \in {-1, 0, 1} /\ (i <= j => L(i) >= L(j))
  /\ job.unit = "items" => \A i \in DOMAIN thr : L(i) <= Max2(1, job.n) /\ (i < Len(thr) => L(i) = Min2(Max2(1, job.n), Len(job.items)))
=============================================================================
