SPECIFICATION Spec
CONSTANTS
  Rewind = FALSE
  PerUnit = TRUE
  MaxRuns = 2
INVARIANTS
  Driven
  OfItsDate
CHECK_DEADLOCK FALSE
