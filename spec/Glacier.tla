------------------------------- MODULE Glacier -------------------------------
(***************************************************************************)
(* Evolution of glaciers along lookup tables.                               *)
(*                                                                         *)
(* A table has n rows; row 1 is the initial state and row n the state       *)
(* without ice: A[r][i] the areas and W[r][i] the volumes (as water) of the *)
(* glacier in unit i.  The rows are equidistant in the volume lost.         *)
(* A glacier is [a, v]: its areas and volumes per unit.                     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Total(s) == NSum(s)
(* position in the table (0 = row 1): the lost share of the initial volume *)
Position(V, V0, n) ==
  IF NLeq(V0, V) THEN NOfInt(0) ELSE NDiv(NMul(NSub(V0, V), NOfInt(n - 1)), V0)
(* rows that suit a position, up to rounding *)
RowsAt(pos, n, tol) ==
  {r \in 1..n : NLeqT(NOfInt(r - 1), pos, tol) /\ ~NLeqT(NOfInt(r), NSub(pos, tol), NOfInt(0))}

(* whole glacier: the areas of the row; the ice is spread like in the row *)
Spread(V, A, W, r) ==
  [i \in 1..Len(A[r]) |-> IF NLeq(A[r][i], NOfInt(0)) THEN NOfInt(0) ELSE NDiv(NMul(V, W[r][i]), Total(W[r]))]
Delta(g, A, W, r) == [a |-> A[r], v |-> Spread(Total(g.v), A, W, r)]

(* each unit on its own: the area of the row; the ice stays in the unit *)
Scaled(a, v, A, i, r) == [a |-> A[r][i], v |-> v]
=============================================================================
