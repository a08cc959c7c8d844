SPECIFICATION Spec
CONSTANTS DL = 4 Year = 5 Dates = {0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 19} Steps = {1, 2, 3, 4, 8} Starts = {0, 3} MaxSteps = 6 MaxItems = 5 MaxRuns = 2 Broken = "none"
INVARIANT Behave
ACTION_CONSTRAINT Whole
CHECK_DEADLOCK FALSE
