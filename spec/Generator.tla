----------------------------- MODULE Generator -----------------------------
(***************************************************************************)
(* The generator of directories and source files: a tree of directories    *)
(* and files, of which everything below one directory, the base, belongs   *)
(* to the generator.  Setting the base wipes it; nothing outside of it is   *)
(* ever changed, and nothing that was generated is lost.                   *)
(*                                                                         *)
(* A path is a sequence of names.  How it is spelled does not matter.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE gen   \* [tree, locked, base, cur, made, srcs, dead]; locked are the directories nothing can be added to or removed from
GeneratorInit == gen = << >>

Dir(p) == [p |-> p, k |-> "dir", s |-> ""]
File(p, s) == [p |-> p, k |-> "file", s |-> s]
Heads(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Paths(tree) == {x.p : x \in tree}
At(tree, p) == CHOOSE x \in tree : x.p = p
IsDir(tree, p) == p = << >> \/ Dir(p) \in tree
\* the directories needed for p
Dirs(p) == {Dir(q) : q \in Heads(p)}
\* nothing but directories on the way to p, as far as it exists
Clear(tree, p) == \A q \in Heads(p) : q \in Paths(tree) => IsDir(tree, q)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* p cannot be made, as the directory where it has to be added is locked
Blocked(g, p) == \E q \in Heads(p) : q \notin Paths(g.tree) /\ Parent(q) \in g.locked

\* A tree that somebody else made, and generators to come
Open(tree) == gen = << >> /\ gen' = [tree |-> tree, locked |-> {}, base |-> << >>, cur |-> << >>, made |-> {}, srcs |-> << >>, dead |-> FALSE]
\* A new generator on what is there
Fresh == gen' = [gen EXCEPT !.base = << >>, !.cur = << >>, !.made = {}, !.srcs = << >>, !.dead = FALSE]

\* every call results in ok or panic, and the tree afterwards; a call that panics changes nothing
Panics(r, tree) == r = "panic" /\ tree = gen.tree /\ UNCHANGED gen
\* The base is set once. It exists afterwards, and is empty.
SetBase(p, r, tree) ==
  IF gen.base # << >> THEN Panics(r, tree)
  ELSE IF ~Clear(gen.tree, p) THEN r = "panic" /\ tree = gen.tree /\ gen' = [gen EXCEPT !.dead = TRUE]
  ELSE LET old == {x \in gen.tree : Under(p, x.p)}
           stuck == Blocked(gen, p) \/ \E x \in old : x.p # p /\ Parent(x.p) \in gen.locked
       IN  \/ /\ r = "ok" /\ ~stuck
              /\ tree = (gen.tree \ old) \cup Dirs(p)
              /\ gen' = [gen EXCEPT !.tree = tree, !.base = <<p>>, !.locked = {q \in @ : ~Under(p, q)}]
           \* what cannot be wiped is reported
           \/ /\ r = "panic" /\ (stuck \/ (old # {} /\ Parent(p) \in gen.locked))
              /\ (gen.tree \ old) \subseteq tree /\ tree \subseteq gen.tree
              /\ gen' = [gen EXCEPT !.tree = tree, !.dead = TRUE, !.locked = {q \in @ : q \in Paths(tree)}]
GetBase(r, same, tree) ==
  IF gen.base = << >> THEN Panics(r, tree) ELSE r = "ok" /\ same /\ tree = gen.tree /\ UNCHANGED gen

\* A directory is made once, and is the current one. If it was made as a parent before, or its parent was not made, then
\* it may also panic.
MakeDir(p, r, tree) ==
  LET q == gen.base[1] \o p IN
  IF gen.base = << >> \/ q \in gen.made \/ ~Clear(gen.tree, q) \/ Blocked(gen, q) THEN Panics(r, tree)
  ELSE \/ /\ r = "ok"
          /\ tree = gen.tree \cup Dirs(q)
          /\ gen' = [gen EXCEPT !.tree = tree, !.cur = <<q>>, !.made = @ \cup {q}]
       \/ (q \in Paths(gen.tree) \/ ~IsDir(gen.tree, Parent(q))) /\ Panics(r, tree)

\* A source file is made once, in the current directory, and is the current one
MakeSrc(name, r, tree) ==
  LET q == Append(gen.cur[1], name) IN
  IF gen.cur = << >> \/ q \in Paths(gen.tree) \/ Blocked(gen, q) THEN Panics(r, tree)
  ELSE /\ r = "ok"
       /\ tree = gen.tree \cup {File(q, "")}
       /\ gen' = [gen EXCEPT !.tree = tree, !.srcs = Append(@, q)]

\* Somebody else locks a directory
Lock(p, r, tree) == /\ r = (IF Dir(p) \in gen.tree THEN "ok" ELSE "none") /\ tree = gen.tree
                    /\ gen' = [gen EXCEPT !.locked = IF r = "ok" THEN @ \cup {p} ELSE @]

\* and opens it again
Unlock(p, r, tree) == /\ r = (IF Dir(p) \in gen.tree THEN "ok" ELSE "none") /\ tree = gen.tree
                      /\ gen' = [gen EXCEPT !.locked = @ \ {p}]

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
\* Writes to the i-th source file, 0 for the current one
Write(i, ss, r, tree) ==
  LET q == gen.srcs[IF i = 0 THEN Len(gen.srcs) ELSE i] IN
  IF gen.srcs = << >> THEN Panics(r, tree)
  ELSE /\ r = "ok"
       /\ tree = {IF x.p = q THEN File(q, x.s \o Concat(ss)) ELSE x : x \in gen.tree}
       /\ gen' = [gen EXCEPT !.tree = tree]
=============================================================================
