---------------------------- MODULE TraceLayout -----------------------------
(* Runs of the real code on descriptions of the same basin.                            *)
(* begin: the first description (units), its results: by unit (values), of the basin    *)
(*        (series: basin)                                                              *)
(* other: another description; unit: the results of its k-th unit; basin: of the basin  *)
EXTENDS Layout
VARIABLES l, st, dead
Begin(ev) == [b |-> ev.units, values |-> ev.values, basin |-> ev.basin, d |-> ev.units]
Tol == "0.000000001"
SameSeries(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ NClose(a[k], b[k], Tol)
Unit(s, u) == CHOOSE k \in 1..Len(s.b) : s.b[k].of = u
Checks(s, ev) ==
  CASE ev.e = "other" -> {<<"(the descriptions are of the same basin)", Alike(ev.units, s.b, "0.000000000001")>>}
    [] ev.e = "unit" -> {<<"every unit has the same results", SameSeries(ev.v, s.values[Unit(s, s.d[ev.k].of)])>>}
    [] ev.e = "basin" -> {<<"the basin has the same results", SameSeries(ev.v, s.basin)>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == IF ev.e = "other" THEN [s EXCEPT !.d = ev.units] ELSE s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
