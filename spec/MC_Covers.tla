------------------------------ MODULE MC_Covers ------------------------------
(* All sequences of changes (possible or not, of any cover, by any amount) of a   *)
(* unit with a generic cover, a glacier and a forest with a canopy, or without a  *)
(* generic cover: the extents stay a partition of the unit, refused changes       *)
(* change nothing, and water and snow are neither lost nor created.               *)
EXTENDS Covers
CONSTANTS One, Depths, MaxChanges, Sets, Broken
VARIABLES u, prev, last, n
vars == <<u, prev, last, n>>
Slots(c) == CASE c \in {"open", "ground"} -> {"self", "snow"}
              [] c = "glacier" -> {"self", "snow", "snoww", "ice"}
              [] OTHER -> {"self", "snow", "canopy"}
Scale == IF MaxChanges <= 2 THEN 144 ELSE 1728
Init == /\ \E S \in Sets :
             /\ \E fr \in [S -> 0..One] :
                  /\ Total(fr) = One
                  /\ \E d \in Depths :
                       u = [one |-> One, fr |-> fr,
                            w |-> [c \in S |-> [r \in Slots(c) |->
                                     Scale * (IF fr[c] = 0 THEN 0 ELSE d * Cardinality({x \in S : fr[x] <= fr[c]}) + (IF r = "self" THEN 2 ELSE IF r = "ice" THEN 5 ELSE 1))]]]
        /\ prev = u /\ last = <<>> /\ n = 0
Apply(c, f) == IF Broken = "keep" /\ Possible(u, c, f, "1e-9") THEN [u EXCEPT !.fr = NewFr(u, c, f)]
               ELSE IF Broken = "half" /\ c \in Names(u) /\ ~Possible(u, c, f, "1e-9") THEN [u EXCEPT !.fr[c] = f]
               ELSE Change(u, c, f, "1e-9")
Next == /\ n < MaxChanges
        /\ \E c \in {"open", "ground", "glacier", "forest", "nowhere"}, f \in 0..(One + 1) :
             /\ u' = Apply(c, f) /\ prev' = u /\ last' = <<c, f>> /\ n' = n + 1
Spec == Init /\ [][Next]_vars

IsPartition == Partition(u.fr, One, "1e-9")
Refused == (last # <<>> /\ ~Possible(prev, last[1], last[2], "1e-9")) => u = prev
Taken == (last # <<>> /\ Possible(prev, last[1], last[2], "1e-9") /\ last[1] # Generic(prev)) => u.fr[last[1]] = last[2]
Others == last # <<>> => \A x \in Names(u) \ {last[1], Generic(u)} : u.fr[x] = prev.fr[x] /\ u.w[x] = prev.w[x]
\* in a unit with a generic cover nothing is lost but the ice of a shrinking glacier
Conserved == (last # <<>> /\ Generic(u) # "") => /\ VolumeOf(u, Liquid) = VolumeOf(prev, Liquid)
                            /\ VolumeOf(u, {"snow"}) = VolumeOf(prev, {"snow"})
Ice == (last # <<>> /\ "glacier" \in Names(u) /\ Generic(u) # "") =>
  IF u.fr["glacier"] >= prev.fr["glacier"] THEN VolumeOf(u, {"ice"}) = VolumeOf(prev, {"ice"})
  ELSE u.w["glacier"]["ice"] = (IF u.fr["glacier"] = 0 THEN 0 ELSE prev.w["glacier"]["ice"])
NonNegative == \A c \in Names(u) : \A r \in Roles(u, c) : u.w[c][r] >= 0
Unseen == ~(n = 2 /\ prev.fr["forest"] = 0 /\ u.fr["forest"] > 0 /\ u.fr["open"] = 0)
=============================================================================
