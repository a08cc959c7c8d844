----------------------------- MODULE MC_Calendar -----------------------------
(* Walk the calendar one day at a time: the closed forms agree with the walk.  *)
EXTENDS Calendar
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, n
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ n = DaysFromCivil(FirstYear, 1, 1)
Next == /\ ~(y = LastYear /\ m = 12 /\ d = 31)
        /\ n' = n + 1
        /\ IF d < DaysInMonth(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, m, d, n>>
Agree == /\ DaysFromCivil(y, m, d) = n
         /\ CivilFromDays(n) = <<y, m, d>>
         /\ DayOfYear(y, m, d) \in 1..(IF IsLeap(y) THEN 366 ELSE 365)
         /\ (m = 12 /\ d = 31) => DayOfYear(y, m, d) = (IF IsLeap(y) THEN 366 ELSE 365)
Anchors == /\ DaysFromCivil(1858, 11, 17) = 0 /\ DaysFromCivil(1970, 1, 1) = 40587
           /\ DaysFromCivil(2000, 2, 29) = 51603 /\ DaysFromCivil(2020, 1, 1) = 58849
=============================================================================
