SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 4 MaxIn = 1 Prompt = FALSE Carry = TRUE Change = TRUE
INVARIANTS InTransit Whole Positive Convolution Drained
PROPERTY Kept
