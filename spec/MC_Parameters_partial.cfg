SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRequests = 1
  Check = FALSE
  AllVariants = TRUE
INVARIANTS Right
