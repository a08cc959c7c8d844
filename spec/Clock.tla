------------------------------- MODULE Clock -------------------------------
(* The simulation clock. Times are whole seconds counted from the start.    *)
EXTENDS Integers, Sequences, Num

Unit(u) == CASE u = "week" -> 604800 [] u = "day" -> 86400 [] u = "hour" -> 3600 [] u = "minute" -> 60
(* A period [0, len] in steps of dt seconds. *)
Valid(len, dt) == len >= 0 /\ dt > 0
StepCount(len, dt) == len \div dt + 1
DateOf(k, dt) == k * dt
Over(k, len, dt) == DateOf(k, dt) > len

(* the state: number of steps made since the last reset *)
Start == 0
Tick(k) == k + 1
(* day count of second t of a period that starts at day d, second s *)
Day(d, s, t) == NAdd(d, NDiv(NOfInt(s + t), "86400"))
Same(a, b) == NFinite(a) /\ NFinite(b) /\ NLt(NAbs(NSub(a, b)), "1.2e-6")
=============================================================================
