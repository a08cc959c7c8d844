SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 5 MaxIn = 2 Prompt = TRUE Carry = TRUE Change = FALSE
INVARIANTS InTransit Whole Positive Convolution Drained
