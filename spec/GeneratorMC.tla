---------------------------- MODULE GeneratorMC ----------------------------
(* All sequences of few calls on trees that others left behind *)
EXTENDS Generator, SequencesExt, Json
CONSTANTS MaxOps, Names, Starts, Locks
VARIABLES ops, first
vars == <<gen, ops, first>>
Old(p) == {Dir(p), File(Append(p, "x"), "old"), Dir(Append(p, "d")), File(p \o <<"d", "y">>, "old"), [p |-> Append(p, "l"), k |-> "link", s |-> "out"]}
Out == {Dir(<<"out">>), File(<<"out", "z">>, "mine")}
Tree == [empty |-> {}, other |-> Out, base |-> Out \cup {Dir(<<"b">>)}, old |-> Out \cup Old(<<"b">>), deep |-> Out \cup {Dir(<<"b">>), File(<<"b", "w">>, "mine")} \cup Old(<<"b", "c">>),
         file |-> Out \cup {File(<<"b">>, "mine")}]
Paths1 == {<<n>> : n \in Names}
Paths2 == Paths1 \cup {<<n, m>> : n \in Names, m \in Names}
More(o) == ops' = Append(ops, o)
Init == GeneratorInit /\ ops = << >> /\ first = {}
Start == \E n \in Starts : Open(Tree[n]) /\ first' = Tree[n] /\ More([op |-> "open", tree |-> SetToSeq(Tree[n])])
R == {"ok", "panic"}
\* the form in which a path is written varies with the place
Form(set) == LET f == IF set THEN <<"plain", "rel", "slash", "dot", "double", "up">> ELSE <<"plain", "slash", "dot", "double", "up">> IN f[1 + ((Len(ops) + Cardinality(gen.tree)) % Len(f))]
Trees == {gen.tree}
New == gen.base # << >> /\ Fresh /\ More([op |-> "new"]) /\ UNCHANGED first
Set == \E p \in {<<"b">>, <<"b", "c">>} : (\E r \in R :
         SetBase(p, r, IF r = "panic" THEN gen.tree ELSE {x \in gen.tree : ~Under(p, x.p)} \cup Dirs(p))) /\ More([op |-> "setbase", p |-> p, form |-> Form(TRUE)])
MkDir == \E p \in Paths2 : (\E r \in R : MakeDir(p, r, IF r = "panic" THEN gen.tree ELSE gen.tree \cup Dirs(gen.base[1] \o p))) /\ More([op |-> "dir", p |-> p, form |-> Form(FALSE)])
MkSrc == \E n \in Names : (\E r \in R : MakeSrc(n, r, IF r = "panic" THEN gen.tree ELSE gen.tree \cup {File(Append(gen.cur[1], n), "")})) /\ More([op |-> "src", name |-> n, form |-> IF Len(ops) % 3 = 0 THEN "dot" ELSE "plain"])
Put == \E i \in 0..Len(gen.srcs) : (\E r \in R : Write(i, <<"p", "q">>, r,
          IF r = "panic" THEN gen.tree ELSE {IF x.p = gen.srcs[IF i = 0 THEN Len(gen.srcs) ELSE i] THEN File(x.p, x.s \o "pq") ELSE x : x \in gen.tree}))
          /\ More([op |-> "write", at |-> i, ss |-> <<"p", "q">>])
Shut == /\ Cardinality({i \in 1..Len(ops) : ops[i].op = "lock"}) < Locks
        /\ \E x \in gen.tree : x.k = "dir" /\ x.p # <<"out">> /\ Lock(x.p, "ok", gen.tree) /\ More([op |-> "lock", p |-> x.p])
Reopen == \E p \in gen.locked : Unlock(p, "ok", gen.tree) /\ More([op |-> "unlock", p |-> p])
Step == Len(ops) <= MaxOps /\ ~gen.dead /\ UNCHANGED first /\ (New \/ Set \/ MkDir \/ MkSrc \/ Put \/ Shut \/ Reopen)
Next == IF ops = << >> THEN Start ELSE Step
Spec == Init /\ [][Next]_vars

\* it is a tree; what the generator made is in its base; outside of all bases nothing changes, except for directories on
\* the way to a base
Bases == {o.p : o \in {ops[i] : i \in {j \in 1..Len(ops) : ops[j].op = "setbase"}}}
Inv == gen # << >> =>
  /\ \A x \in gen.tree : Len(x.p) > 1 => IsDir(gen.tree, Parent(x.p))
  /\ \A x \in gen.tree, y \in gen.tree : x.p = y.p => x = y
  /\ gen.base # << >> => IsDir(gen.tree, gen.base[1]) /\ \A q \in gen.made : Under(gen.base[1], q) /\ IsDir(gen.tree, q)
  /\ \A i \in 1..Len(gen.srcs) : Under(gen.base[1], gen.srcs[i]) /\ At(gen.tree, gen.srcs[i]).k = "file"
  /\ \A x \in first : (\A b \in Bases : ~Under(b, x.p)) => x \in gen.tree
  /\ \A x \in gen.tree \ first : \E b \in Bases : Under(b, x.p) \/ x \in Dirs(b)
\* within one generator everything that was generated stays, and files only grow
Keeps == [][gen # << >> /\ gen.base # << >> => \A x \in gen.tree : \E y \in gen'.tree : y.p = x.p /\ y.k = x.k /\ Len(y.s) >= Len(x.s)]_vars
Done == gen # << >> /\ (Len(ops) = MaxOps + 1 \/ gen.dead)
Emit == Done => PrintT("BEHAVIOUR " \o ToJson([id |-> "mc", ops |-> ops \o <<[op |-> "getbase"]>>]))
=============================================================================
