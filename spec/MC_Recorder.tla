---------------------------- MODULE MC_Recorder -----------------------------
(* A buffer with a cursor holds, at the end of every run, the values of the run *)
(* and of no other one: through spin-ups, boundary changes, resets and repeated *)
(* runs.                                                                        *)
EXTENDS Recorder, TLC
CONSTANTS N, Spin, MaxRuns, Values,
          Rewind,     \* the cursor returns to the first row with the reset
          Before,     \* a row is recorded before the changes at the boundary
          Quiet       \* nothing is recorded during the spin-up
VARIABLES w, w0, buf, ini, cur, ph, k, runs, rec
vars == <<w, w0, buf, ini, cur, ph, k, runs, rec>>
Empty == "none"
Init == /\ w \in Values /\ w0 = w /\ buf = [i \in 1..N |-> Empty] /\ ini = Empty /\ cur = 1
        /\ ph = "idle" /\ k = 0 /\ runs = 0 /\ rec = NoRun
Put(v) == IF cur \in 1..N THEN [buf EXCEPT ![cur] = v] ELSE buf
Start == /\ ph = "idle" /\ runs < MaxRuns /\ k' = 0 /\ runs' = runs + 1
         /\ IF Spin > 0 THEN ph' = "spin" /\ UNCHANGED <<ini, rec>>
                        ELSE ph' = "step" /\ ini' = w /\ rec' = Began(w)
         /\ UNCHANGED <<w, w0, buf, cur>>
SpinStep == /\ ph = "spin" /\ k < Spin /\ w' \in Values /\ k' = k + 1
            /\ (IF Quiet THEN UNCHANGED <<buf, cur>> ELSE buf' = Put(w') /\ cur' = cur + 1)
            /\ UNCHANGED <<w0, ini, ph, runs, rec>>
SpinEnd == /\ ph = "spin" /\ k = Spin /\ ph' = "step" /\ k' = 0 /\ ini' = w /\ rec' = Began(w)
           /\ UNCHANGED <<w, w0, buf, cur, runs>>
Step == /\ ph = "step" /\ w' \in Values /\ ph' = "boundary" /\ rec' = Recorded(rec, w')
        /\ buf' = (IF Before THEN Put(w') ELSE buf) /\ UNCHANGED <<w0, ini, cur, k, runs>>
Boundary == /\ ph = "boundary" /\ w' \in Values /\ k' = k + 1 /\ cur' = cur + 1
            /\ buf' = (IF Before THEN buf ELSE Put(w'))
            /\ ph' = (IF k + 1 = N THEN "done" ELSE "step") /\ UNCHANGED <<w0, ini, runs, rec>>
Save == /\ ph = "done" /\ w0' = w /\ w0 # w /\ UNCHANGED <<w, buf, ini, cur, ph, k, runs, rec>>
Reset == /\ ph = "done" /\ w' = w0 /\ ph' = "idle" /\ cur' = (IF Rewind THEN 1 ELSE cur)
         /\ UNCHANGED <<w0, buf, ini, k, runs, rec>>
Next == Start \/ SpinStep \/ SpinEnd \/ Step \/ Boundary \/ Save \/ Reset
Spec == Init /\ [][Next]_vars
Faithful == ph = "done" => buf = rec.rows /\ ini = rec.ini
NotReached == ~(ph = "done" /\ runs = 2 /\ rec.ini # rec.rows[1] /\ w # rec.rows[N])
=============================================================================
