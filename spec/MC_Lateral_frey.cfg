CONSTANTS
 W = "0.3"
 Steps = 5
 Kind = "frey"
 Frac = "0.25"
 Limit = "2000"
 Ground = "steep"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Conserved NonNegative Downhill Held Flat Dense
