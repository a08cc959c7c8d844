INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Share Colder Conserved OnlyRain Extremes
