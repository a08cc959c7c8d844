------------------------------- MODULE Forcing -------------------------------
(***************************************************************************)
(* Forcing series and the run that consumes them.                           *)
(*                                                                         *)
(* Times are seconds relative to the start of the modelling period.  A      *)
(* series is [var, step, data] where data is a sequence of records          *)
(* [id, off, n, v]: the values v[1..n] for the hydro unit id (0: for all)   *)
(* at off, off + step, ...                                                  *)
(* A model is [step, n, units]: n steps of the given length.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Last(d, step) == d.off + (d.n - 1) * step
Ids(s) == {s.data[k].id : k \in 1..Len(s.data)}
Covers(m, d, step) == d.off <= 0 /\ Last(d, step) >= (m.n - 1) * m.step
WellFormed(s) ==
  /\ Len(s.data) > 0 /\ s.step > 0
  /\ \A k \in 1..Len(s.data) : s.data[k].n >= 1
  /\ \A j, k \in 1..Len(s.data) : j # k => s.data[j].id # s.data[k].id

(* a series is accepted when it can drive every step of the run *)
Accepts(m, have, s) ==
  /\ WellFormed(s) /\ s.step = m.step
  /\ \A k \in 1..Len(s.data) : Covers(m, s.data[k], s.step)
  /\ s.var \notin have
(* an accepted series can be attached when every unit has data *)
Attachable(m, s) == 0 \in Ids(s) \/ \A u \in m.units : u \in Ids(s)

DataOf(s, u) ==
  LET k == CHOOSE k \in 1..Len(s.data) : s.data[k].id \in {0, u} IN s.data[k]
(* the value of the series at time t (of the interval that contains it) *)
IndexAt(d, step, t) == (t - d.off) \div step + 1
ValueAt(s, u, t) == LET d == DataOf(s, u) IN d.v[IndexAt(d, s.step, t)]
=============================================================================
