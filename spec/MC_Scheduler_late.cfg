SPECIFICATION Spec
CONSTANTS DL = 4 Year = 5 Dates = {0, 3, 4, 7, 10, 11} Steps = {1, 2, 3, 4, 8} Starts = {0, 3} MaxSteps = 5 MaxItems = 2 MaxRuns = 2 Broken = "late"
INVARIANTS ExactlyWhenDue InDateOrder
CHECK_DEADLOCK FALSE
