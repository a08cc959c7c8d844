SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 4 MaxIn = 1 Prompt = FALSE Carry = FALSE Change = FALSE
INVARIANTS InTransit
