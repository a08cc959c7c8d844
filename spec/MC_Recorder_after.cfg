SPECIFICATION Spec
CONSTANTS
  N = 2
  Spin = 0
  MaxRuns = 1
  Values = {"a", "b"}
  Rewind = TRUE
  Before = FALSE
  Quiet = TRUE
INVARIANTS
  Faithful
CHECK_DEADLOCK FALSE
