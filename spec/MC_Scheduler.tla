----------------------------- MODULE MC_Scheduler -----------------------------
(* Items added in any order (dated ones and recurring ones), runs with any step  *)
(* size and time of day of the start, with spin-up steps, resets at any moment   *)
(* and repeated runs: the queue and the cursor apply each item exactly when it   *)
(* is due, once. A calendar of Year days, recurring items on one day of it.      *)
EXTENDS Scheduler, TLC, Json
CONSTANTS DL, Year, Dates, Steps, Starts, MaxSteps, MaxItems, MaxRuns, Broken
VARIABLES items, queue, cur, last, k, dt, s0, spin, log, runs, h
vars == <<items, queue, cur, last, k, dt, s0, spin, log, runs, h>>
\* last[i]: day of the last application of recurring item i; log: <<boundary, item>>
Init == /\ items = <<>> /\ queue = <<>> /\ cur = 0 /\ last = <<>> /\ k = -1 /\ log = <<>> /\ runs = 0
        /\ dt \in Steps /\ s0 \in Starts /\ spin \in {0, 2} /\ h = <<>>

Add == /\ k = -1 /\ runs = 0 /\ Len(items) < MaxItems
       /\ \/ \E d \in {x - 3 : x \in Dates} : /\ items' = Append(items, <<"on", d>>)
                              /\ queue' = Insert(queue, <<d, Len(items) + 1>>)
          \/ \E y \in 0..(Year - 1) : items' = Append(items, <<"every", y>>) /\ UNCHANGED queue
       /\ last' = Append(last, -1)
       /\ h' = Append(h, items'[Len(items')])
       /\ UNCHANGED <<cur, k, dt, s0, spin, log, runs>>

Start == /\ k = -1 /\ items # <<>> /\ runs < MaxRuns
         /\ k' = 0 /\ runs' = runs + 1 /\ log' = <<>>
         /\ h' = Append(h, <<"run">>)
         /\ UNCHANGED <<items, queue, cur, last, dt, s0, spin>>
DaysIn(a, b) == {e \in a..b : TRUE}
RECURSIVE Rec(_, _, _, _)
\* recurring items on days e..b: one application per item and day
Rec(e, b, la, lg) ==
  IF e > b THEN <<la, lg>>
  ELSE LET hit == {i \in 1..Len(items) : items[i][1] = "every" /\ items[i][2] = e % Year /\ (Broken = "again" \/ la[i] # e)}
           seqh == SelectSeq([i \in 1..Len(items) |-> i], LAMBDA i : i \in hit)
       IN Rec(e + 1, b, [i \in 1..Len(items) |-> IF i \in hit THEN e ELSE la[i]],
              lg \o [j \in 1..Len(seqh) |-> <<k + 1, seqh[j]>>])
Boundary ==
  /\ k >= 0 /\ k < MaxSteps
  /\ LET t == (k + 1) * dt
         day == DayAt(t, s0, DL)
         e0 == IF Broken = "long" THEN day ELSE DayAt(t - dt, s0, DL) + 1
         r == Rec(IF e0 > day THEN day ELSE e0, day, last, log)
         c == Advance(queue, cur, IF Broken = "late" THEN t - 1 ELSE t)
     IN /\ last' = r[1]
        /\ log' = r[2] \o [j \in 1..(c - cur) |-> <<k + 1, queue[cur + j][2]>>]
        /\ cur' = c
  /\ k' = k + 1
  /\ UNCHANGED <<items, queue, dt, s0, spin, runs, h>>
\* end of the run (or never reached: a reset may come at any boundary)
Reset == /\ k >= 0 /\ k' = -1 /\ cur' = (IF Broken = "cursor" THEN cur ELSE 0) /\ last' = [i \in 1..Len(items) |-> -1]
         /\ log' = <<>>
         /\ h' = Append(h, <<"reset", k>>)
         /\ UNCHANGED <<items, queue, dt, s0, spin, runs>>
Next == Add \/ Start \/ Boundary \/ Reset
Spec == Init /\ [][Next]_vars

Count(b, i) == Cardinality({j \in 1..Len(log) : log[j] = <<b, i>>})
Days(i) == {e \in 0..(s0 + (MaxSteps + 1) * dt) : e % Year = items[i][2]}
ExactlyWhenDue == k >= 1 =>
  \A b \in 1..k : \A i \in 1..Len(items) :
     IF items[i][1] = "on" THEN Count(b, i) = (IF DueAt(items[i][2], dt) = b THEN 1 ELSE 0)
     ELSE Count(b, i) - RecurringDue(b, s0, dt, DL, Days(i)) \in 0..RecurringMay(b, s0, dt, DL, Days(i))
InDateOrder == \A a, b \in 1..Len(log) :
  a < b /\ items[log[a][2]][1] = "on" /\ items[log[b][2]][1] = "on" => items[log[a][2]][2] <= items[log[b][2]][2]
\* behaviours to replay: the items in the order they were added, and the history of runs
Behave == (k = MaxSteps /\ runs = MaxRuns) => PrintT(<<"BEHAV", ToJson([items |-> items, dt |-> dt, s0 |-> s0, spin |-> spin, h |-> h])>>)
\* (only whole runs can be replayed)
Whole == (k >= 0 /\ k' = -1) => k = MaxSteps
=============================================================================
