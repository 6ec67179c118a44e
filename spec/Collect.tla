------------------------------ MODULE Collect ------------------------------
(***************************************************************************)
(* The helpers for slices, maps, two-level maps, maps of slices, and       *)
(* sorted slices of pairs that serve as sorted maps.                       *)
(*                                                                         *)
(* A map is a function of paths of one or two keys to values; the value is *)
(* a number, or a sequence of numbers.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLE mp     \* the entries of the map
NoEntries == << >>      \* the function that is defined nowhere
CollectInit == mp = NoEntries

\* ---- slices: a call gets the slice in (0 stands for nil where the elements have nil) and its results are
\*   out     what is returned
\*   after   the argument after the call, whose further capacity is not touched either
\*   shared  whether a change of what is returned changes the argument
FirstOf(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i - 1) : s[j] # v
Removed(s, v, all) ==
  IF all THEN SelectSeq(s, LAMBDA x : x # v)
  ELSE IF Contains(s, v) THEN LET i == FirstOf(s, v) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE s
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Permutes(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
\* the keys by which things are sorted: a number, its remainder, or the square of the size of a complex number <<re, im>>
SortKey(f, x) == CASE f = "by" -> x % 3 [] f = "size" -> x * x [] f = "complex" -> x[1] * x[1] + x[2] * x[2] [] OTHER -> x
Ascends(f, s) == \A i \in 1..(Len(s) - 1) : SortKey(f, s[i]) <= SortKey(f, s[i + 1])
\* a slice of any number of dimensions
RECURSIVE Flat(_, _)
Flat(x, dims) == IF dims = 0 THEN <<x>> ELSE LET parts == [i \in DOMAIN x |-> Flat(x[i], dims - 1)] IN FlattenSeq(parts)
IndexOf(s, i, default) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE IF i < 0 /\ Len(s) + i >= 0 THEN s[Len(s) + i + 1] ELSE default
Distinct(s) == Cardinality(ToSet(s)) = Len(s)

SliceOk(e, res) ==
  IF e.f = "flatten" THEN
    CASE e.what = "other" \/ e.what = "type" -> res.e = "panic"
      [] e.what = "nil" -> res.e = "" /\ res.out = << >> /\ ~res.isnil
      [] OTHER -> res.e = "" /\ res.out = Flat(e.in, e.dims)
  ELSE /\ res.e = ""
       /\ CASE e.f = "add"    -> res.out = Append(e.in, e.v)
            [] e.f = "copy"   -> res.out = e.in /\ res.after = e.in /\ ~res.shared /\ ~res.isnil
            [] e.f = "of"     -> res.out = e.in
            [] e.f = "index"  -> res.v = IndexOf(e.in, e.i, IF e.default = << >> THEN 0 ELSE e.default[1]) /\ res.after = e.in
            [] e.f = "remove" -> res.out = Removed(e.in, e.v, e.all) /\ res.after = e.in /\ ((e.all \/ Contains(e.in, e.v)) => ~res.shared)
            [] e.f = "reverse" -> res.out = Reversed(e.in) /\ res.after = res.out /\ (e.in # << >> => res.shared)
            [] e.f = "sort"   -> Permutes(e.in, res.out) /\ Ascends(e.by, res.out) /\ res.after = res.out /\ (e.in # << >> => res.shared)
            [] e.f = "unique" -> ToSet(res.out) = ToSet(e.in) /\ Distinct(res.out) /\ res.after = e.in
            [] e.f = "tomap"  -> ToSet(res.out) = {SortKey(e.by, e.in[i]) : i \in 1..Len(e.in)} /\ Distinct(res.out) /\ res.after = e.in /\ res.true /\ ~res.isnil
Slice(e, res) == SliceOk(e, res) /\ UNCHANGED mp

\* ---- maps: after every call the entries of the map are those of the specification
Entries == {<<p, mp[p]>> : p \in DOMAIN mp}
Shows(dump) == LET new == mp' IN ToSet(dump) = {<<p, new[p]>> : p \in DOMAIN new} /\ Distinct(dump)
With(p, v) == [q \in DOMAIN mp \cup {p} |-> IF q = p THEN v ELSE mp[q]]
Without(ps) == [q \in DOMAIN mp \ ps |-> mp[q]]
At(p, default) == IF p \in DOMAIN mp THEN mp[p] ELSE default

Set(p, v, res) == mp' = With(p, v) /\ Shows(res.dump)
Unset(p, res) == mp' = Without({p}) /\ Shows(res.dump)
Test(p, res) == res.b = (p \in DOMAIN mp) /\ UNCHANGED mp
Index(p, default, res) == res.v = At(p, IF default = << >> THEN 0 ELSE default[1]) /\ UNCHANGED mp
\* the keys of a map of one level, in any order; or the entries in the order of their keys
Keys(res) == ToSet(res.out) = {p[1] : p \in DOMAIN mp} /\ Distinct(res.out) /\ ~res.isnil /\ UNCHANGED mp
Sorted(by, res) ==
  /\ ToSet(res.out) = {<<p[1], mp[p]>> : p \in DOMAIN mp} /\ Distinct(res.out)
  /\ Ascends(by, [i \in 1..Len(res.out) |-> res.out[i][1]])
  /\ UNCHANGED mp
\* maps of slices; a slice that was taken from the map does not change by removing
AddTo(p, v, res) == mp' = With(p, Append(At(p, << >>), v)) /\ Shows(res.dump)
RemoveFrom(p, v, all, res) ==
  /\ mp' = (IF p \in DOMAIN mp THEN With(p, Removed(mp[p], v, all)) ELSE mp)
  /\ Shows(res.dump) /\ res.kept

\* ---- sorted slices of pairs: the same, with the entries in the order of the keys
Ordered(dump) == \A i \in 1..(Len(dump) - 1) : dump[i][1][1] < dump[i + 1][1][1]
TupleAdd(p, v, res) == AddTo(p, v, res) /\ Ordered(res.dump)
TupleRemove(p, v, all, res) == RemoveFrom(p, v, all, res) /\ Ordered(res.dump)
TupleRemoveKey(p, res) == Unset(p, res) /\ Ordered(res.dump)
\* the place of the largest key that is at most this one, counted from 0; for a key less than all others only that it
\* is not there
TupleSearch(k, res) ==
  LET below == {p \in DOMAIN mp : p[1] <= k} IN
  /\ res.found = (<<k>> \in DOMAIN mp)
  /\ below # {} => res.at = Cardinality(below) - 1
  /\ DOMAIN mp = {} => res.at = -1
  /\ UNCHANGED mp
=============================================================================
