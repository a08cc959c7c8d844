--------------------------- MODULE TraceLifecycle ---------------------------
(* Histories of the real code against Lifecycle.tla.                            *)
(*   model  a model is built: steps of spin-up and of the period, whether actions *)
(*          are scheduled, and the name of its initial state ("s0", or the name   *)
(*          of a state another model ended in, from which it is initialised)      *)
(*   Run    outcome: digests of the recorded series, totals, final state and of   *)
(*          every recorded row                                                   *)
(*   Reset  digest of the stores and extents right after, and the clock          *)
(*   Save, Param                                                                *)
EXTENDS Lifecycle, FiniteSets
VARIABLES l, st, dead

Begin(ev) == [m |-> Fresh(0, 1, FALSE), runs |-> {}, rows |-> {}, states |-> {}, start |-> ""]
Known(f, t) == {x[2] : x \in {y \in f : y[1] = t}}
Same(f, t, d) == \A x \in Known(f, t) : x = d
Checks(s, ev) ==
  CASE ev.e = "Run" ->
         {<<"discharge", Same({<<r[1], r[2].q>> : r \in s.runs}, OutTerm(s.m), ev.d.q)>>,
          <<"records", Same({<<r[1], r[2].rec>> : r \in s.runs}, OutTerm(s.m), ev.d.rec)>>,
          <<"totals", Same({<<r[1], r[2].tot>> : r \in s.runs}, OutTerm(s.m), ev.d.tot)>>,
          <<"final state", Same({<<r[1], r[2].fin>> : r \in s.runs}, OutTerm(s.m), ev.d.fin)>>,
          <<"rows", s.m.acts \/ \A j \in 1..Len(ev.d.rows) : Same(s.rows, RowTerm(s.m, j), ev.d.rows[j])>>,
          <<"number of rows", Len(ev.d.rows) = s.m.n>>,
          <<"run completed", ev.ok>>}
    [] ev.e = "Reset" ->
         {<<"restored state", Same(s.states, s.m.init, ev.d)>>,
          <<"clock at the start", ev.date = s.start>>}
    [] ev.e = "model" -> {<<"clock at the start", s.start = "" \/ ev.date = s.start>>,
                          <<"same initial state", Same(s.states, ev.s, ev.d)>>}
    [] ev.e \in {"Save", "Param"} -> {}
    [] OTHER -> {<<"unknown event", FALSE>>}
Post(s, ev) ==
  CASE ev.e = "model" -> [s EXCEPT !.m = [Fresh(ev.spin, ev.n, ev.acts) EXCEPT !.st = ev.s, !.init = ev.s],
                                   !.start = ev.date, !.states = @ \cup {<<ev.s, ev.d>>}]
    [] ev.e = "Run" -> [s EXCEPT !.m = OfRun(s.m), !.runs = @ \cup {<<OutTerm(s.m), ev.d>>},
                                 !.states = @ \cup {<<OutTerm(s.m), ev.d.fin>>},
                                 !.rows = IF s.m.acts THEN @
                                          ELSE @ \cup {<<RowTerm(s.m, j), ev.d.rows[j]>> : j \in 1..Len(ev.d.rows)}]
    [] ev.e = "Reset" -> [s EXCEPT !.m = OfReset(s.m)]
    [] ev.e = "Save" -> [s EXCEPT !.m = OfSave(s.m)]
    [] ev.e = "Param" -> [s EXCEPT !.m = OfParam(s.m, ev.p)]
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
