------------------------------ MODULE Scheduler ------------------------------
(* Scheduled actions. Times are whole seconds (ticks) counted from the start of *)
(* the run; boundary k (k >= 1) is the end of step k, at k * dt. Actions are    *)
(* applied at boundaries only.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- what is due: the guarantee ---- *)
(* a dated (sporadic) item: at the first boundary not before its date *)
DueAt(date, dt) == IF date <= dt THEN 1 ELSE (date + dt - 1) \div dt
(* calendar days (counted from day 0, the day of the start) entered by step k; *)
(* s0: time of the day of the start, dl: length of a day                       *)
DayAt(t, s0, dl) == (s0 + t) \div dl
Entered(k, s0, dt, dl) == (DayAt((k - 1) * dt, s0, dl) + 1) .. DayAt(k * dt, s0, dl)
(* how many applications of a recurring item (on the days in Days) are due at boundary k *)
RecurringDue(k, s0, dt, dl, Days) == Cardinality(Entered(k, s0, dt, dl) \cap Days)
(* the day of the start has begun before the run: an item recurring on it may *)
(* be applied at the first boundary if that is still on the same day          *)
RecurringMay(k, s0, dt, dl, Days) == IF k = 1 /\ 0 \in Days /\ DayAt(dt, s0, dl) = 0 THEN 1 ELSE 0

(* ---- how it is decided: a queue in date order and a cursor ---- *)
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>>
                ELSE IF x[1] <= Head(q)[1] THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE Advance(_, _, _)
Advance(q, c, t) == IF c < Len(q) /\ q[c + 1][1] <= t THEN Advance(q, c + 1, t) ELSE c
=============================================================================
