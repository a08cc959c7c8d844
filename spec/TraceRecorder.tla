--------------------------- MODULE TraceRecorder ----------------------------
(* The record of runs of the real code, read from the model and from the saved file.          *)
(* begin: items asked for, per structure (hu, sub), covers whose extents are recorded,         *)
(*        units (id, area), start date and step in days, number of steps                       *)
(* run: a run starts;  step: the values of every component at the end of a step                *)
(* columns / row / rows: what the record holds;  column: one item on its own                   *)
EXTENDS Recorder, Num, TLC
VARIABLES l, st, dead
Begin(ev) == [asked |-> ev.hu, hu |-> Columns(ev.hu), sub |-> Columns(ev.sub), fr |-> {ev.fr[i] : i \in 1..Len(ev.fr)},
              units |-> ev.units, areas |-> ev.areas, start |-> ev.start, dt |-> ev.dt, n |-> ev.n,
              run |-> NoRun, cols |-> [sub |-> <<>>, hu |-> <<>>, fr |-> <<>>]]
Set(q) == {q[i] : i \in 1..Len(q)}
Absent == "NaN"
OfUnit(vals, u) == vals[ToString(u)]
Matrix(s, row, labels, vals) ==
  /\ Len(row) = Len(labels)
  /\ \A i \in 1..Len(labels) :
       /\ Len(row[i]) = Len(s.units)
       /\ \A j \in 1..Len(s.units) : row[i][j] = Cell(OfUnit(vals, s.units[j]), Absent, labels[i])
(* the items of a unit are those asked for in its structure *)
Values(s, row, labels, vals, sid) ==
  /\ Len(row) = Len(labels)
  /\ \A i \in 1..Len(labels) :
       /\ Len(row[i]) = Len(s.units)
       /\ \A j \in 1..Len(s.units) :
            row[i][j] = CellAsked(OfUnit(vals, s.units[j]), Absent, labels[i], s.asked[OfUnit(sid, s.units[j])])
Checks(s, ev) ==
  CASE ev.e = "run" -> {}
    [] ev.e = "step" -> {<<"no more steps than the period has", Len(s.run.rows) < s.n>>}
    [] ev.e = "columns" ->
     {<<"the items asked for over the units, once each", Distinct(ev.hu) /\ Set(ev.hu) = s.hu>>,
      <<"the items asked for over the basin, once each", Distinct(ev.sub) /\ Set(ev.sub) = s.sub>>,
      <<"the extents of the land covers when asked for", Distinct(ev.fr) /\ Set(ev.fr) = s.fr>>,
      <<"the units", ev.ids = s.units>>, <<"their areas", Len(ev.areas) = Len(s.areas) /\ \A i \in 1..Len(ev.areas) : NClose(ev.areas[i], s.areas[i], "0.000000000001")>>}
    [] ev.e = "rows" -> {<<"one row per step", ev.n = s.n /\ Len(s.run.rows) = s.n>>}
    [] ev.e = "row" ->
     {<<"a row of the run", ev.k <= Len(s.run.rows)>>} \cup
     (IF ev.k > Len(s.run.rows) THEN {} ELSE
      LET v == s.run.rows[ev.k] IN
       {<<"dated at its step", NClose(ev.time, NAdd(s.start, NMul(ToString(ev.k - 1), s.dt)), "0.0000000001")>>,
        <<"the values of the basin at the end of the step",
           Len(ev.sub) = Len(s.cols.sub) /\ \A i \in 1..Len(ev.sub) : ev.sub[i] = Cell(v.sub, "none", s.cols.sub[i])>>,
        <<"the values of every unit at the end of the step", Values(s, ev.hu, s.cols.hu, v.hu, v.sid)>>,
        <<"the extents of the land covers of every unit in the step", Matrix(s, ev.fr, s.cols.fr, v.fr)>>})
    [] ev.e = "column" ->
     {<<"one value per step and unit", Len(ev.v) = Len(s.run.rows)>>,
      <<"the item as recorded",
         \A k \in 1..Len(ev.v) : \A j \in 1..Len(s.units) :
            ev.v[k][j] = LET v == s.run.rows[k]
                             u == s.units[j]
                         IN IF ev.kind = "fr" THEN Cell(OfUnit(v.fr, u), Absent, ev.item)
                            ELSE CellAsked(OfUnit(v.hu, u), Absent, ev.item, s.asked[OfUnit(v.sid, u)])>>}
    [] ev.e = "refused" -> {<<"an item that was not recorded is refused", ev.exc = (ev.item \notin (IF ev.kind = "fr" THEN s.fr ELSE s.hu))>>}
    [] ev.e = "total" -> {<<"the total of the outlet is the sum of its column", NClose(ev.q, ev.sum, "0.00000001")>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) ==
  CASE ev.e = "run" -> [s EXCEPT !.run = NoRun]
    [] ev.e = "step" -> [s EXCEPT !.run = Recorded(@, [sub |-> ev.sub, hu |-> ev.hu, sid |-> ev.sid, fr |-> ev.fr])]
    [] ev.e = "columns" -> [s EXCEPT !.cols = [sub |-> ev.sub, hu |-> ev.hu, fr |-> ev.fr]]
    [] OTHER -> s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
