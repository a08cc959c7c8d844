CONSTANTS Fine = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Never1
