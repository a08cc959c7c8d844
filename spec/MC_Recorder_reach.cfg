SPECIFICATION Spec
CONSTANTS
  N = 2
  Spin = 1
  MaxRuns = 2
  Values = {"a", "b"}
  Rewind = TRUE
  Before = TRUE
  Quiet = TRUE
INVARIANTS
  NotReached
CHECK_DEADLOCK FALSE
