SPECIFICATION Spec
CONSTANTS A1 = 2 A2 = 2 MaxP = 4 MaxC = 6 Cap = 1
INVARIANT Unreached
CHECK_DEADLOCK FALSE
