----------------------------- MODULE Structures ------------------------------
(* Variants of the structure of a model. A variant describes the land covers a   *)
(* unit may have (a set of names), its other stores and its processes. Every      *)
(* unit is built from one of them, after the land covers it has.                  *)
EXTENDS Naturals, Sequences, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
Exact(vs, here) == {i \in 1..Len(vs) : vs[i] = here}
Able(vs, here) == {i \in 1..Len(vs) : here \subseteq vs[i]}
(* The variants a unit with these covers can be built from: the one with just these covers, *)
(* else a smallest one that has them all; there may be none.                                 *)
Fitting(vs, here) ==
  IF Exact(vs, here) # {} THEN Exact(vs, here)
  ELSE {i \in Able(vs, here) : \A j \in Able(vs, here) : Cardinality(vs[i]) <= Cardinality(vs[j])}
(* a model can be built when each unit can *)
Buildable(vs, units) == \A i \in 1..Len(units) : Fitting(vs, units[i]) # {}
=============================================================================
