SPECIFICATION Spec
CONSTANTS
  Rewind = TRUE
  PerUnit = TRUE
  MaxRuns = 2
INVARIANTS
  Driven
  OfItsDate
CHECK_DEADLOCK FALSE
