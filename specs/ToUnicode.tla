---------------------------- MODULE ToUnicode ----------------------------
(* ToUnicode maps: an entry [k, lo, hi, units, list] is a bfchar ("char"), a *)
(* bfrange to a string ("range") or to an array ("array").  Characters are   *)
(* given by UTF-16 units; a map is a set of pairs <<code, characters>>.      *)
EXTENDS Integers, Sequences
None == <<-1>>
RECURSIVE Characters(_)
Characters(u) ==
  IF u = << >> THEN << >>
  ELSE IF u[1] \in 55296..56319 /\ Len(u) > 1 /\ u[2] \in 56320..57343
  THEN <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o Characters(SubSeq(u, 3, Len(u)))
  ELSE <<u[1]>> \o Characters(Tail(u))
\* the i-th next string: the last unit is counted up
Next16(u, i) == SubSeq(u, 1, Len(u) - 1) \o <<u[Len(u)] + i>>
Defines(e) ==
  CASE e.k = "char" -> {<<e.lo, Characters(e.units)>>}
    [] e.k = "range" -> {<<e.lo + i, Characters(Next16(e.units, i))>> : i \in 0..(e.hi - e.lo)}
    [] e.k = "array" -> {<<e.lo + i, Characters(e.list[i + 1])>> : i \in 0..(e.hi - e.lo)}
\* later entries win
AddEntry(m, e) == {p \in m : p[1] < e.lo \/ p[1] > (IF e.k = "char" THEN e.lo ELSE e.hi)} \cup Defines(e)
Mapped(m, c) == IF \E p \in m : p[1] = c THEN (CHOOSE p \in m : p[1] = c)[2] ELSE None
=============================================================================
