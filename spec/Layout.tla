------------------------------- MODULE Layout -------------------------------
(* A basin as it is written down - a sequence of units [of: which unit it is, or is a *)
(* part of; id; area] - and what it means: the share of the basin of each unit. Two    *)
(* descriptions that mean the same basin give the same results.                         *)
EXTENDS Num, Sequences, FiniteSets, TLC
Units(d) == {d[i].of : i \in 1..Len(d)}
Area(d, u) == NSum([i \in 1..Len(d) |-> IF d[i].of = u THEN d[i].area ELSE NOfInt(0)])
Total(d) == NSum([i \in 1..Len(d) |-> d[i].area])
Distinct(d) == \A i, j \in 1..Len(d) : i # j => d[i].id # d[j].id
Alike(d, b, tol) == /\ Distinct(d) /\ Distinct(b) /\ Units(d) = Units(b)
                    /\ \A u \in Units(d) : NClose(NMul(Area(d, u), Total(b)), NMul(Area(b, u), Total(d)), tol)
(* what the units give, on the whole basin *)
Mean(d, q) == NDiv(NSum([i \in 1..Len(d) |-> NMul(d[i].area, q[d[i].of])]), Total(d))
=============================================================================
