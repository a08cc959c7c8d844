----------------------------- MODULE MC_Partition -----------------------------
(* The partition on a grid of temperatures, thresholds and elevations, in floating point. *)
EXTENDS Partition
VARIABLE q
T == {"-13", "-1", "-0.25", "0", "0.5", "1", "2", "2.75", "3", "14"}
Init == q \in [type : {"snow_rain:threshold", "snow_rain:linear", "snow_rain:cemaneige", "rain"}, t : T, lo : T, hi : T, a : {"-1", "0", "1"}, d : {"0.5", "2"},
               z : {"300", "1499.9", "1500", "2600"}, c : {"1", "1.25"}, p : {"0", "0.7", "40"}]
Next == UNCHANGED q
Par == [threshold |-> q.a, transition_start |-> q.a, transition_end |-> NAdd(q.a, q.d), rain_correction_factor |-> q.c, snow_correction_factor |-> "1"]
Fo(t) == [precipitation |-> q.p, temperature |-> t, temperature_min |-> q.lo, temperature_max |-> q.hi]
S(t) == Solid(q.type, Par, Fo(t), q.z)
Le(a, b) == NLeqT(a, b, "1e-12")
Share == Le(0, S(q.t)) /\ Le(S(q.t), 1)
Colder == \A t \in T : NLeq(t, q.t) => Le(S(q.t), S(t))
Conserved == NClose(NAdd(NDiv(Rain(q.type, Par, Fo(q.t), q.z), q.c), Snow(q.type, Par, Fo(q.t), q.z)), q.p, "1e-12")
OnlyRain == q.type = "rain" => NLeq(S(q.t), 0)
Extremes == /\ q.type \in {"snow_rain:threshold", "snow_rain:linear"} =>
                 /\ NLeq(q.t, q.a) => NLeq(1, S(q.t))
                 /\ NLeq(NAdd(q.a, q.d), q.t) => NLeq(S(q.t), 0)
Never == ~(NLt("0.1", S(q.t)) /\ NLt(S(q.t), "0.9") /\ q.type = "snow_rain:cemaneige" /\ q.z = "300")
=============================================================================
