------------------------------ MODULE Recorder ------------------------------
(* What a run records: one row per step, holding the values at the end of the   *)
(* step (before the changes due at the boundary), from its first step on, and   *)
(* the values it started from.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets
NoRun == [ini |-> <<>>, rows |-> <<>>]
Began(v) == [ini |-> v, rows |-> <<>>]
Recorded(rec, row) == [rec EXCEPT !.rows = Append(@, row)]
(* The columns: every item asked for in some structure, once. *)
Columns(asked) == UNION {{asked[i][j] : j \in 1..Len(asked[i])} : i \in 1..Len(asked)}
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
(* A cell holds the value of the component of the unit; the unit may lack it, or its structure does not ask for it. *)
Cell(values, absent, item) == IF item \in DOMAIN values THEN values[item] ELSE absent
CellAsked(values, absent, item, q) == IF \E i \in 1..Len(q) : q[i] = item THEN Cell(values, absent, item) ELSE absent
=============================================================================
