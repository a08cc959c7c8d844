CONSTANTS
 S0 = {"0", "0.02", "7", "100"}
 In = {"0", "0.5", "40"}
 K = {"0.005", "0.07", "0.5", "1", "3"}
 H = {"0.04166666666666667", "0.25", "1", "3"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Order RK4Accuracy TangentExact Stable CrankOrder Compose Closes Steady
