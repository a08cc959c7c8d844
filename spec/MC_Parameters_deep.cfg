SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRequests = 3
  Check = TRUE
  AllVariants = TRUE
INVARIANTS Right Local Alike
