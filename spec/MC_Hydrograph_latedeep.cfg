SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 5 MaxIn = 2 Prompt = FALSE Carry = TRUE Change = TRUE
INVARIANTS InTransit Whole Positive Convolution Drained
