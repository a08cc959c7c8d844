SPECIFICATION Spec
CONSTANTS MaxOps = 6 Params = {"p0", "p1"} Steps = {2, 3} Spins = {0, 1, 2, 4} Broken = "memory"
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
