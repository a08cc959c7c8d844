----------------------------- MODULE TraceClock -----------------------------
(* clock: a stand-alone clock driven to its end; run: the time axis of a run.    *)
EXTENDS Clock, FiniteSets, TLC
VARIABLES l, st, dead
Begin(ev) == 0
Axis(ev, ds) == /\ Len(ds) = StepCount(ev.len, ev.dt)
                /\ \A i \in 1..Len(ds) : Same(ds[i], Day(ev.day, ev.sec, DateOf(i - 1, ev.dt)))
Checks(s, ev) ==
  CASE ev.e = "clock" ->
         {<<"validity", ev.valid = Valid(ev.len, ev.dt)>>} \cup
         (IF Valid(ev.len, ev.dt)
          THEN {<<"count", ev.n = StepCount(ev.len, ev.dt)>>, <<"dates", Axis(ev, ev.dates)>>, <<"over", ev.over>>,
                <<"reset", Same(ev.reset, Day(ev.day, ev.sec, 0))>>}
          ELSE {})
    [] ev.e = "run" ->
         {<<"completed", ev.ret>>, <<"count", ev.n = StepCount(ev.len, ev.dt)>>, <<"axis", Axis(ev, ev.axis)>>,
          <<"values", ev.nq = StepCount(ev.len, ev.dt)>>, <<"sees every step", Len(ev.seen) = StepCount(ev.len, ev.dt)>>,
          <<"boundaries", \A i \in 1..Len(ev.seen) : Same(ev.seen[i], Day(ev.day, ev.sec, DateOf(i, ev.dt)))>>}
    [] ev.e = "badrun" -> {<<"refused", ~ev.ret>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
