SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 3
  Steps = 2
  Rain = {0, 3}
  ByPosition = FALSE
  Weight = "count"
INVARIANTS Same Volume
