SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Remember = FALSE Whole = TRUE
CONSTRAINT Integral
INVARIANTS Conserved OnTheTable Gone NoIceNoArea
PROPERTY Shrinks
