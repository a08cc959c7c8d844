CONSTANTS
 W = "0.3"
 Steps = 9
 Kind = "slide"
 Frac = "0.25"
 Limit = "2000"
 Ground = "steep"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Conserved NonNegative Downhill Held Flat Dense
