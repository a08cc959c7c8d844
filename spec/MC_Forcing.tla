----------------------------- MODULE MC_Forcing -----------------------------
(* One cursor per series and unit, positioned at the start of each run and     *)
(* advanced once per step, drives every step with the value of its date,       *)
(* through spin-up, resets and exchanged series.                               *)
EXTENDS Forcing, TLC
CONSTANTS Rewind,    \* the cursors are positioned again after the spin-up
          PerUnit,   \* the period of every unit's data is checked on acceptance
          MaxRuns
VARIABLES m, ser, cur, t, ph, used, runs

Units == {1, 2}
Models == {[step |-> st, n |-> n, units |-> Units, spin |-> sp] : st \in {1, 2}, n \in {2, 3}, sp \in {0, 2}}
Datum(id, off, n) == [id |-> id, off |-> off, n |-> n, v |-> [k \in 1..n |-> <<id, off, k>>]]
Series ==
  {[var |-> "p", step |-> st, data |-> <<Datum(0, off, n)>>] : st \in {1, 2}, off \in -2..1, n \in 1..4} \cup
  {[var |-> "p", step |-> st, data |-> <<Datum(1, o1, n1), Datum(2, o2, n2)>>] :
     st \in {1, 2}, o1 \in -1..0, n1 \in 2..4, o2 \in -1..1, n2 \in 1..4}
Accept(s) == IF PerUnit THEN Accepts(m, {}, s)
             ELSE Accepts(m, {}, [s EXCEPT !.data = <<@[1]>>]) /\ WellFormed(s)
vars == <<m, ser, cur, t, ph, used, runs>>
(* a position of the cursors: -1 when a datum does not reach it *)
Position(s, x) == [k \in 1..Len(s.data) |-> IndexAt(s.data[k], s.step, x)]

Init == /\ m \in Models /\ ser \in {s \in Series : Accept(s)} /\ cur = Position(ser, 0)
        /\ t = 0 /\ ph = "idle" /\ used = <<>> /\ runs = 0
Start == /\ ph = "idle" /\ runs < MaxRuns /\ cur' = Position(ser, 0) /\ t' = 0 /\ used' = <<>>
         /\ ph' = (IF m.spin > 0 THEN "spin" ELSE "run") /\ runs' = runs + 1 /\ UNCHANGED <<m, ser>>
Use == [u \in Units |-> LET k == CHOOSE k \in 1..Len(ser.data) : ser.data[k].id \in {0, u}
                        IN IF cur[k] \in 1..ser.data[k].n THEN ser.data[k].v[cur[k]] ELSE <<0, 0, 0>>]
Step == /\ ph \in {"spin", "run"} /\ used' = Append(used, [u |-> Use, t |-> t])
        /\ t' = t + m.step /\ cur' = [k \in DOMAIN cur |-> cur[k] + 1] /\ UNCHANGED <<m, ser, runs>>
        /\ ph' = IF ph = "spin" /\ Len(used') = (IF m.spin < m.n THEN m.spin ELSE m.n) THEN "rewind"
                 ELSE IF ph = "run" /\ t' = m.n * m.step THEN "idle" ELSE ph
Again == /\ ph = "rewind" /\ ph' = "run" /\ t' = 0 /\ used' = <<>>
         /\ cur' = (IF Rewind THEN Position(ser, 0) ELSE cur) /\ UNCHANGED <<m, ser, runs>>
Exchange == /\ ph = "idle" /\ ser' \in {s \in Series : Accept(s)} /\ cur' = Position(ser', 0)
            /\ UNCHANGED <<m, t, ph, used, runs>>
Next == Start \/ Step \/ Again \/ Exchange
Spec == Init /\ [][Next]_vars

Driven == \A k \in 1..Len(used) : \A u \in Units :
            ph # "idle" =>
              /\ IndexAt(DataOf(ser, u), ser.step, used[k].t) <= DataOf(ser, u).n
              /\ used[k].u[u] = ValueAt(ser, u, used[k].t)
OfItsDate == \A k \in 1..Len(used) : used[k].t = (k - 1) * m.step
NotReached == ~(ph = "run" /\ Len(used) = 2 /\ runs = 2)
=============================================================================
