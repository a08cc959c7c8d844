SPECIFICATION Spec
CONSTANTS
  Rewind = TRUE
  PerUnit = FALSE
  MaxRuns = 2
INVARIANTS
  Driven
  OfItsDate
CHECK_DEADLOCK FALSE
