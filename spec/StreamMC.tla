------------------------------ MODULE StreamMC ------------------------------
(* All compositions of up to MaxStages stages of a small set, over all small sources; every machine is pulled to its end and
   a bit beyond.  The pull machine is compared with the meaning of the composition. *)
EXTENDS Stream, Json, TLC
CONSTANTS MaxStages, MaxLen, MaxNext, Wide
VARIABLES hist, outs
S(k, p) == [k |-> k, p |-> p]
Huge == 2000000000      \* stands for the largest count there is
\* type of input and output of the stages
IntInt == {S("map", <<-1, 1>>), S("maperr", <<2, 1>>), S("maperrs", <<2, 1>>), S("filter", <<2, 1>>), S("reduce", << >>), S("reduce", <<5>>), S("reduceto", << >>),
           S("reduceto", <<3>>), S("skip", <<0>>), S("skip", <<1>>), S("skip", <<2>>), S("skip", <<Huge>>), S("limit", <<0>>), S("limit", <<1>>), S("limit", <<2>>), S("limit", <<Huge>>), S("peek", << >>), S("distinct", << >>),
           S("duplicate", << >>), S("gen", << >>), S("reverse", << >>), S("sort", << >>), S("sortby", << >>), S("min", << >>),
           S("max", << >>), S("sum", << >>), S("count", << >>), S("abs", << >>)}
IntBool == {S("all", <<2, 1>>), S("any", <<2, 1>>), S("none", <<2, 1>>), S("tobool", <<2, 1, 0, 0>>), S("tobool", <<2, 1, 1, 1>>)}
IntSlice == {S("toslice", << >>), S("foldslice", << >>), S("foldslice", <<7>>), S("mapslice", <<3>>)}
SliceInt == {S("expand", << >>), S("maplen", << >>)}
BoolInt == {S("mapbool", << >>)}
IntPair == {S("mappair", <<2>>)}
PairMap == {S("tomap", << >>), S("onemap", << >>)}
PairInt == {S("unpair", << >>)}
MapPair == {S("expandmap", << >>)}
MapInt == {S("maplenmap", << >>)}
Final == {S("intoslice", <<2>>)}
From(t) == CASE t = "int" -> IntInt \cup IntBool \cup IntSlice \cup IntPair [] t = "bool" -> BoolInt [] t = "slice" -> SliceInt
             [] t = "pair" -> PairMap \cup PairInt [] t = "map" -> MapPair \cup MapInt
To(s) == IF s \in IntInt \cup SliceInt \cup BoolInt \cup PairInt \cup MapInt THEN "int" ELSE IF s \in IntBool THEN "bool" ELSE IF s \in IntSlice THEN "slice"
         ELSE IF s \in IntPair \cup MapPair THEN "pair" ELSE "map"
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<< << >>, "int" >>}
            ELSE LET C == Comps(n - 1) IN C \cup UNION {{<<Append(c[1], s), To(s)>> : s \in From(c[2])} : c \in C}
\* expandmap after a map of many entries has more than one behaviour, unless it is the last stage: left to trace validation
Determined(ss) == \A i \in 1..Len(ss) : ss[i].k = "expandmap" => i > 1 /\ ss[i - 1].k = "onemap"
Compositions == {c[1] : c \in {x \in Comps(MaxStages) : Determined(x[1])}}
                \cup {Append(c[1], S("intoslice", <<2>>)) : c \in {x \in Comps(MaxStages - 1) : x[2] = "int" /\ Determined(x[1])}}

Els == IF Wide THEN {0, 1, 2, 3} ELSE {1, 2}
Lists == UNION {[1..n -> {[v |-> x, e |-> ""] : x \in Els}] : n \in 0..MaxLen}
Scripts == Lists \cup {Append(l, [v |-> 0, e |-> "e1"]) : l \in {x \in Lists : Len(x) < MaxLen}}

Log(o) == hist' = Append(hist, o)
R0 == [v |-> << >>, e |-> ""]
Init == StreamInit /\ hist = << >> /\ outs = << >>
Create == hist = << >> /\ \E ss \in Compositions : Compose(ss) /\ Log([op |-> "compose", stages |-> ss, res |-> R0, eff |-> [c |-> 0, cb |-> << >>]]) /\ outs' = << >>
Start == Len(hist) = 1 /\ \E sc \in Scripts : Apply(sc, Eff(Applied(sc))) /\ Log([op |-> "apply", src |-> sc, res |-> R0, eff |-> Eff(Applied(sc))]) /\ outs' = << >>
Step == /\ Len(hist) > 1 /\ Len(hist) < MaxNext + 2
        /\ LET P == Nexted(1, << >>) IN
             /\ Next_(1, NextRes(P), Eff(P), << >>)
             /\ Log([op |-> "next", i |-> 1, res |-> NextRes(P), eff |-> Eff(P)])
             /\ outs' = IF P.e = "" THEN Append(outs, P.v) ELSE outs
Next == Create \/ Start \/ Step
Spec == Init /\ [][Next]_<<svars, hist, outs>>
Emit == (Len(hist) = MaxNext + 2) => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> hist]))

Ended == Len(hist) > 2 /\ hist[Len(hist)].res.e \notin {"", "panic"}
Into == stages # << >> /\ stages[Len(stages)].k = "intoslice"
\* what was pulled out until the end is what the composition means
MeansWhatItSays == (Ended /\ ~Into) => LET m == Meaning(stages, machs[1].script) IN outs = m.vs /\ hist[Len(hist)].res.e = m.e
\* a prefix of it before that
PrefixOfMeaning == (Len(hist) > 2 /\ ~Into) => LET m == Meaning(stages, machs[1].script) IN IsPrefix(outs, m.vs)
\* the source is never called again after its end, and never more often than it has elements
SourceBound == machs # << >> => machs[1].p.calls <= Len(machs[1].script) + 1
=============================================================================
