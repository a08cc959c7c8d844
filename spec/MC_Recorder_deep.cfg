SPECIFICATION Spec
CONSTANTS
  N = 3
  Spin = 2
  MaxRuns = 2
  Values = {"a", "b", "c"}
  Rewind = TRUE
  Before = TRUE
  Quiet = TRUE
INVARIANTS
  Faithful
CHECK_DEADLOCK FALSE
