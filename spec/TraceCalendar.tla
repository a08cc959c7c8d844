---------------------------- MODULE TraceCalendar ----------------------------
EXTENDS Calendar, FiniteSets
VARIABLES l, st, dead

Begin(ev) == 0
Failed(ev) == ev.exc
Text(ev) == IF ev.time = "" THEN DateText(ev.order, ev.sep, ev.y, ev.m, ev.d)
            ELSE DateText(ev.order, ev.sep, ev.y, ev.m, ev.d) \o ev.glue \o TimeText(ev.time, ev.h, ev.mi, ev.s)
Checks(s, ev) ==
  CASE ev.e = "MJD" ->
         IF ValidDate(ev.y, ev.m, ev.d)
         THEN {<<"mjd", ~Failed(ev) /\ SameInstant(ev.r, MjdOf(ev.y, ev.m, ev.d, ev.h, ev.mi, ev.s))>>}
         ELSE {<<"mjd-invalid", Failed(ev)>>}
    [] ev.e = "FromMJD" -> {<<"time", ~Failed(ev) /\ ev.r = TimeOf(ev.x)>>}
    [] ev.e = "Parse" ->
         {<<"text", ev.text = Text(ev)>>,
          <<"parse", IF ev.legal
                     THEN ~Failed(ev) /\ SameInstant(ev.r, MjdOf(ev.y, ev.m, ev.d,
                              IF ev.time = "" THEN 0 ELSE ev.h, IF ev.time = "" THEN 0 ELSE ev.mi,
                              IF ev.time \in {"hms", "hmscompact"} THEN ev.s ELSE 0))
                     ELSE Failed(ev)>>,
          <<"legal", ev.legal => ValidDate(ev.y, ev.m, ev.d)>>}
    [] ev.e = "Inc" -> {<<"inc", ~Failed(ev) /\ SameInstant(ev.r, NAdd(ev.x, Amount(ev.u, ev.n)))>>}
    [] ev.e = "Doy" -> LET t == TimeOf(ev.x) IN {<<"doy", ~Failed(ev) /\ ev.r = DayOfYear(t[1], t[2], t[3])>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == s

TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
