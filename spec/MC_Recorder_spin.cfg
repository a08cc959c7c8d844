SPECIFICATION Spec
CONSTANTS
  N = 2
  Spin = 1
  MaxRuns = 1
  Values = {"a", "b"}
  Rewind = TRUE
  Before = TRUE
  Quiet = FALSE
INVARIANTS
  Faithful
CHECK_DEADLOCK FALSE
