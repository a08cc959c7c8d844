SPECIFICATION Spec
CONSTANTS
  Rewind = TRUE
  PerUnit = TRUE
  MaxRuns = 2
INVARIANTS
  NotReached
  OfItsDate
CHECK_DEADLOCK FALSE
