SPECIFICATION Spec
CONSTANTS
  N = 2
  Spin = 1
  MaxRuns = 2
  Values = {"a", "b", "c"}
  Rewind = TRUE
  Before = TRUE
  Quiet = TRUE
INVARIANTS
  Faithful
CHECK_DEADLOCK FALSE
