----------------------------- MODULE MC_Layout ------------------------------
(* A program that goes through the units in the order they are written down, against  *)
(* a basin whose units have no order: for every description of the same basin, every   *)
(* part holds what its unit holds, and the basin gives the same volume at every step.  *)
EXTENDS Layout
CONSTANTS MaxParts, Steps, Rain,
          ByPosition,  \* the data are taken by the position of the unit, not by its id
          Weight       \* "area" | "count"
Basin == <<[of |-> 1, id |-> 1, area |-> 2], [of |-> 2, id |-> 2, area |-> 3]>>
Ids == 1..MaxParts
Written == {d \in UNION {[1..n -> [of : {1, 2}, id : Ids, area : 1..3]] : n \in 2..MaxParts} :
              Alike(d, Basin, 0) /\ Total(d) = Total(Basin)}
VARIABLES d, rain, ref, held, i, t, vol, out
vars == <<d, rain, ref, held, i, t, vol, out>>
Init == /\ d \in Written /\ rain \in [1..2 -> [1..Steps -> Rain]]
        /\ ref = [u \in 1..2 |-> u] /\ held = [k \in 1..Len(d) |-> d[k].of]
        /\ i = 1 /\ t = 1 /\ vol = 0 /\ out = 0
(* the data of a unit, kept by id, as they were written *)
Of(k) == IF ByPosition THEN (IF k <= 2 THEN k ELSE 2) ELSE (CHOOSE j \in 1..Len(d) : d[j].id = d[k].id)
Rained(k) == rain[IF ByPosition THEN Of(k) ELSE d[Of(k)].of][t]
Gives(c) == c \div 2
Unit == /\ t <= Steps /\ i <= Len(d) /\ i' = i + 1
        /\ LET c == held[i] + Rained(i) IN
           /\ held' = [held EXCEPT ![i] = c - Gives(c)]
           /\ vol' = vol + Gives(c) * (IF Weight = "area" THEN d[i].area ELSE 1)
        /\ UNCHANGED <<d, rain, ref, t, out>>
Step == /\ t <= Steps /\ i = Len(d) + 1
        /\ i' = 1 /\ t' = t + 1 /\ vol' = 0
        /\ LET c == [u \in 1..2 |-> ref[u] + rain[u][t]] IN
           /\ ref' = [u \in 1..2 |-> c[u] - Gives(c[u])]
           /\ out' = vol - (Gives(c[1]) * Basin[1].area + Gives(c[2]) * Basin[2].area)
        /\ UNCHANGED <<d, rain, held>>
Next == Unit \/ Step
Spec == Init /\ [][Next]_vars
Same == i = 1 => \A k \in 1..Len(d) : held[k] = ref[d[k].of]
Volume == out = 0
Never == ~(t > Steps /\ Len(d) = MaxParts /\ d[1].of = 2 /\ d[1].id = 3 /\ vol = 0)
=============================================================================
