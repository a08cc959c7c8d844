--------------------------- MODULE MC_Structures ----------------------------
(* The assignment as an incremental search over the variants, in every order of  *)
(* declaration, for every unit; and what the assignment guarantees.              *)
EXTENDS Structures, TLC
CONSTANTS Covers, MaxVariants,
          Smallest     \* keep the smallest of the variants that have all the covers
VARIABLES vs, here, i, exact, best
vars == <<vs, here, i, exact, best>>
Sets == (SUBSET Covers) \ {{}}
Init == /\ vs \in UNION {[1..n -> Sets] : n \in 1..MaxVariants} /\ here \in Sets
        /\ i = 1 /\ exact = 0 /\ best = 0
Look == /\ i <= Len(vs) /\ i' = i + 1
        /\ exact' = (IF exact = 0 /\ vs[i] = here THEN i ELSE exact)
        /\ best' = (IF here \subseteq vs[i] /\ (best = 0 \/ (Smallest /\ Cardinality(vs[i]) < Cardinality(vs[best]))) THEN i ELSE best)
        /\ UNCHANGED <<vs, here>>
Next == Look
Spec == Init /\ [][Next]_vars
Done == i > Len(vs)
Found == IF exact # 0 THEN exact ELSE best
(* the search finds a fitting variant, or there is none *)
Right == Done => IF Fitting(vs, here) = {} THEN Found = 0 ELSE Found \in Fitting(vs, here)
(* a unit keeps all its covers *)
Keeps == \A k \in Fitting(vs, here) : here \subseteq vs[k]
(* and carries as few covers without extent as the variants allow *)
Tight == \A k \in Fitting(vs, here) : \A j \in Able(vs, here) : Cardinality(vs[k] \ here) <= Cardinality(vs[j] \ here)
(* all the variants that fit have as many covers, and just one set of covers when one is exact *)
Alike == \A k, j \in Fitting(vs, here) : /\ Cardinality(vs[k]) = Cardinality(vs[j])
                                        /\ Exact(vs, here) # {} => vs[k] = vs[j]
(* the order in which the variants are declared does not matter *)
Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
OrderFree == {vs[k] : k \in Fitting(vs, here)} = {Reverse(vs)[k] : k \in Fitting(Reverse(vs), here)}
(* a variant that cannot serve the unit changes nothing for it *)
Irrelevant == \A v \in Sets : ~(here \subseteq v) => Fitting(Append(vs, v), here) = Fitting(vs, here)
NoTie == Cardinality(Fitting(vs, here)) <= 1
=============================================================================
