SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 3
  Steps = 2
  Rain = {0, 3}
  ByPosition = TRUE
  Weight = "area"
INVARIANTS Same Volume
