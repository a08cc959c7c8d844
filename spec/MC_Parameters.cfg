SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRequests = 2
  Check = TRUE
  AllVariants = TRUE
INVARIANTS Right Local Alike
