SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 7 MaxIn = 2 Prompt = TRUE Carry = TRUE Change = FALSE
INVARIANTS InTransit Whole Positive Convolution Drained
