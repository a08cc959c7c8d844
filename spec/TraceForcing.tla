---------------------------- MODULE TraceForcing ----------------------------
(* A model, the series offered to it and the forcing of each unit in each step of its runs.  *)
(* begin: the model [step, n, units] and the variables it needs                               *)
(* add: a series and whether it was accepted;  clear: all series are withdrawn                *)
(* attach: whether every unit received its data                                               *)
(* run: whether the run was carried out, and the forcing used: steps[k] = seq of <<u, var, x>> *)
EXTENDS Forcing, Num, TLC
VARIABLES l, st, dead
Begin(ev) == [m |-> [step |-> ev.step, n |-> ev.n, units |-> {ev.units[i] : i \in 1..Len(ev.units)}],
              needs |-> {ev.needs[i] : i \in 1..Len(ev.needs)}, have |-> <<>>, att |-> {}]
Vars(q) == {q[i].var : i \in 1..Len(q)}
Of(q, v) == q[CHOOSE i \in 1..Len(q) : q[i].var = v]
Needed(s) == SelectSeq(s.have, LAMBDA x : x.var \in s.needs)
CanAttach(s) == \A i \in 1..Len(s.have) : s.have[i].var \in s.needs => Attachable(s.m, s.have[i])
Checks(s, ev) ==
  CASE ev.e = "add" ->
     {<<"accepted when it covers the period of every unit with the step of the model, refused otherwise",
        ev.ok = (ev.regular /\ Accepts(s.m, Vars(s.have), ev.ser))>>}
    [] ev.e = "clear" -> {}
    [] ev.e = "attach" ->
     {<<"attached when every unit has its data, refused otherwise", ev.ok = CanAttach(s)>>}
    [] ev.e = "run" ->
     {<<"runs when every forcing is attached, refused otherwise", ev.ok = (s.needs \subseteq s.att)>>,
      <<"every step of the period", ev.ok => Len(ev.steps) = s.m.n>>} \cup
     (IF ~ev.ok \/ ~(s.needs \subseteq s.att) THEN {} ELSE
       {<<"each unit is driven by its value at the date of the step",
          \A k \in 1..Len(ev.steps) :
             LET t == (k - 1) * s.m.step IN
             /\ {<<ev.steps[k][i][1], ev.steps[k][i][2]>> : i \in 1..Len(ev.steps[k])} = s.m.units \X s.needs
             /\ \A i \in 1..Len(ev.steps[k]) :
                  LET x == ev.steps[k][i] IN NClose(x[3], ValueAt(Of(s.have, x[2]), x[1], t), "0")>>})
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) ==
  CASE ev.e = "add" -> IF ev.ok THEN [s EXCEPT !.have = Append(@, ev.ser)] ELSE s
    [] ev.e = "clear" -> [s EXCEPT !.have = <<>>, !.att = {}]
    [] ev.e = "attach" -> IF ev.ok THEN [s EXCEPT !.att = Vars(s.have)] ELSE s
    [] OTHER -> s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
