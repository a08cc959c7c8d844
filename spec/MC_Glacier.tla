----------------------------- MODULE MC_Glacier -----------------------------
(* A glacier over two units that melts, grows, evolves, is saved and restored.   *)
EXTENDS Glacier, TLC
CONSTANTS Remember,  \* the areas are only adapted when the row has changed since the last application or reset
          Whole      \* whole glacier (TRUE) or each unit on its own
VARIABLES a, d, sa, sd, last, ph, tot

\* volumes in units of ice; the depths stay integers: d[i] * a[i] is the volume
A == << <<4, 4>>, <<4, 2>>, <<2, 0>>, <<0, 0>> >>
W == << <<24, 24>>, <<24, 8>>, <<16, 0>>, <<0, 0>> >>
V0 == 48
N == 4
Vol(ar, de) == [i \in 1..2 |-> ar[i] * de[i]]
Row(V, v0) == CHOOSE r \in RowsAt(Position(V, v0, N), N, 0) : TRUE
vars == <<a, d, sa, sd, last, ph, tot>>
Init == a = A[1] /\ d = <<6, 6>> /\ sa = a /\ sd = d /\ last = 1 /\ ph = "free" /\ tot = 48
\* melt and accumulation: any depth of ice on the remaining area that keeps the shares integers
Weather == /\ ph \in {"free", "applied"} /\ a' = a /\ ph' = "free" /\ UNCHANGED <<sa, sd, last>>
           /\ d' \in [1..2 -> 0..12] /\ (\A i \in 1..2 : a[i] = 0 => d'[i] = 0)
           /\ LET v == Vol(a, d') IN v[1] + v[2] \in {0, 4, 16, 32, 48, 52} /\ tot' = v[1] + v[2]
Evolve == /\ ph = "free" /\ UNCHANGED <<sa, sd, tot>> /\ ph' = "applied"
          /\ LET V == Vol(a, d)
                 r == Row(tot, V0)
                 sp == Spread(tot, A, W, r)
                 na == IF Remember /\ r = last THEN a ELSE A[r]
             IN IF Whole
                THEN /\ a' = na /\ last' = r
                     \* the depth follows from the area of the table
                     /\ d' = [i \in 1..2 |-> IF A[r][i] = 0 THEN 0 ELSE sp[i] \div A[r][i]]
                ELSE /\ a' = [i \in 1..2 |-> IF a[i] = 0 \/ V[i] = 0 THEN 0 ELSE A[Row(V[i], W[1][i])][i]]
                     /\ d' = [i \in 1..2 |-> IF a'[i] = 0 THEN 0 ELSE V[i] \div a'[i]]
                     /\ last' = r
Save == ph = "applied" /\ sa' = a /\ sd' = d /\ UNCHANGED <<a, d, last, ph, tot>>
Restore == /\ a' = sa /\ d' = sd /\ last' = 1 /\ ph' = "free"
           /\ tot' = (LET v == Vol(sa, sd) IN v[1] + v[2]) /\ UNCHANGED <<sa, sd>>
Next == Weather \/ Evolve \/ Save \/ Restore
Spec == Init /\ [][Next]_vars
Divisible == \A i \in 1..2 : LET r == Row(tot, V0) IN
               A[r][i] = 0 \/ (tot * W[r][i] % Total(W[r]) = 0 /\ Spread(tot, A, W, r)[i] % A[r][i] = 0)
\* (volumes whose shares are not integers are left out)
Integral == ph = "free" => (IF Whole THEN Divisible ELSE TRUE)
Conserved == (ph = "applied" /\ Whole) => LET v == Vol(a, d) IN v[1] + v[2] = tot
OnTheTable == (ph = "applied" /\ Whole) => a = A[Row(tot, V0)]
Gone == (ph = "applied" /\ tot = 0) => a = <<0, 0>>
NoIceNoArea == (ph = "applied" /\ ~Whole) => \A i \in 1..2 : (a[i] * d[i] = 0) => a[i] = 0
Shrinks == [][ph = "free" /\ ph' = "applied" /\ ~Whole => \A i \in 1..2 : a[i] = 0 => a'[i] = 0]_vars
NotReached == ~(ph = "applied" /\ a = A[3] /\ sa = A[2])
=============================================================================
