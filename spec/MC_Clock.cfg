SPECIFICATION Spec
CONSTANTS MaxLen = 24 MaxDt = 9
INVARIANTS InOrder Complete
CHECK_DEADLOCK FALSE
