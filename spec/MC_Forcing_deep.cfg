SPECIFICATION Spec
CONSTANTS
  Rewind = TRUE
  PerUnit = TRUE
  MaxRuns = 3
INVARIANTS
  Driven
  OfItsDate
CHECK_DEADLOCK FALSE
