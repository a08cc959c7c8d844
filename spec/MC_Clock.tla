------------------------------ MODULE MC_Clock ------------------------------
(* Every period and step size up to the bounds: a run visits every date of the   *)
(* period exactly once, in order, none after the end; a reset starts over.       *)
EXTENDS Clock, FiniteSets
CONSTANTS MaxLen, MaxDt
VARIABLES len, dt, k, seen, resets
vars == <<len, dt, k, seen, resets>>
Init == len \in 0..MaxLen /\ dt \in 1..MaxDt /\ k = Start /\ seen = <<>> /\ resets = 0
Step == ~Over(k, len, dt) /\ seen' = Append(seen, DateOf(k, dt)) /\ k' = Tick(k) /\ UNCHANGED <<len, dt, resets>>
Reset == resets < 1 /\ k' = Start /\ seen' = <<>> /\ resets' = resets + 1 /\ UNCHANGED <<len, dt>>
Next == Step \/ Reset
Spec == Init /\ [][Next]_vars
InOrder == \A i \in 1..Len(seen) : seen[i] = (i - 1) * dt /\ seen[i] <= len
Complete == Over(k, len, dt) =>
  /\ Len(seen) = StepCount(len, dt)
  /\ {seen[i] : i \in 1..Len(seen)} = {t \in 0..len : t % dt = 0}
=============================================================================
