SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Remember = FALSE Whole = TRUE
CONSTRAINT Integral
INVARIANT NotReached
