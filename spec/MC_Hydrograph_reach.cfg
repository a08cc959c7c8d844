SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 4 MaxIn = 1 Prompt = TRUE Carry = TRUE Change = FALSE
INVARIANTS Simple
