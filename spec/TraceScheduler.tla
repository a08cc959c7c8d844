--------------------------- MODULE TraceScheduler ---------------------------
(* run:    the applications of the scheduled items in one run, as observed.        *)
(*         items: <<kind, t>> with t in seconds from the start ("on"), or           *)
(*         <<"every", month, day>>; log: <<date, item>> in the order of application *)
(* queue:  what the model reports about its schedule                                *)
(* series: the recorded extent of a land cover under dated changes                  *)
EXTENDS Scheduler, Calendar
VARIABLES l, st, dead
Begin(ev) == 0
Instant(ev, k) == NAdd(ev.day, NDiv(NOfInt(ev.s0 + k * ev.dt), "86400"))
\* days of a recurring item: out-of-range days go to the nearest day of the month (not counting 29 February)
EffDay(m, d) == IF d < 1 THEN 1 ELSE IF d > DaysInMonth(1901, m) THEN DaysInMonth(1901, m) ELSE d
DaysOf(ev, it) == {e \in 0..DayAt(ev.n * ev.dt, ev.s0, 86400) :
                     LET c == CivilFromDays(ev.day + e) IN \E j \in 1..Len(it[2]) : c[2] = it[2][j][1] /\ c[3] = EffDay(it[2][j][1], it[2][j][2])}
BoundaryOf(ev, x) == NToInt(NFloor(NAdd(NDiv(NMul(NSub(x, Instant(ev, 0)), "86400"), NOfInt(ev.dt)), "0.5")))
Checks(s, ev) ==
  CASE ev.e = "run" ->
     LET ks == TLCEval([j \in 1..Len(ev.log) |-> BoundaryOf(ev, ev.log[j][1])])
         Cnt(k, i) == Cardinality({j \in 1..Len(ev.log) : ks[j] = k /\ ev.log[j][2] = i})
         idx == 1..Len(ev.items)
         days == TLCEval([i \in idx |-> IF ev.items[i][1] = "every" THEN TLCEval(DaysOf(ev, ev.items[i])) ELSE {}])
         dated == SelectSeq(ev.log, LAMBDA x : ev.items[x[2]][1] = "on")
     IN {<<"completed", ev.ret>>,
         <<"applied at a step boundary", \A j \in 1..Len(ev.log) : ks[j] \in 1..ev.n /\ SameInstant(ev.log[j][1], Instant(ev, ks[j]))>>,
         <<"dated items are applied once, at the first boundary not before their date",
           \A i \in idx : ev.items[i][1] = "on" =>
              LET b == DueAt(ev.items[i][2], ev.dt)
                  all == {j \in 1..Len(ev.log) : ev.log[j][2] = i}
              IN IF b > ev.n THEN all = {} ELSE Cardinality(all) = 1 /\ \A j \in all : ks[j] = b>>,
         <<"recurring items are applied once on each of their days",
           \A i \in idx : ev.items[i][1] = "every" => \A k \in 1..ev.n :
              Cnt(k, i) - RecurringDue(k, ev.s0, ev.dt, 86400, days[i]) \in 0..RecurringMay(k, ev.s0, ev.dt, 86400, days[i])>>,
         <<"in the order of their dates",
           \A j \in 1..(Len(dated) - 1) : ev.items[dated[j][2]][2] <= ev.items[dated[j + 1][2]][2]>>}
    [] ev.e = "queue" ->
     {<<"counts the dated items", ev.count = Len(ev.dates)>>}
    [] ev.e = "series" ->
     {<<"the recorded extent follows the dated changes",
        \A k \in 0..(ev.n - 1) :
          LET past == {j \in 1..Len(ev.changes) : k >= 1 /\ DueAt(ev.changes[j][1], ev.dt) <= k}
              want == IF past = {} THEN ev.init
                      ELSE ev.changes[CHOOSE j \in past : \A i \in past : ev.changes[i][1] <= ev.changes[j][1]][2]
          IN NClose(ev.values[k + 1], want, "1e-9")>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
