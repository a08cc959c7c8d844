SPECIFICATION Spec
CONSTANTS MaxOps = 6 Params = {"p0", "p1"} Steps = {2, 3} Spins = {0, 1, 2, 4} Broken = "none"
INVARIANT Reproducible
INVARIANT ActionsPending
CHECK_DEADLOCK FALSE
