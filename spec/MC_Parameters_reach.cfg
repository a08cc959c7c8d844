SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRequests = 1
  Check = TRUE
  AllVariants = TRUE
INVARIANTS Never
