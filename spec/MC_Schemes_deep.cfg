CONSTANTS
 S0 = {"0", "0.02", "1", "7", "35", "62", "333", "1500", "100"}
 In = {"0", "0.003", "0.5", "3.5", "7", "12", "40", "130"}
 K = {"0.005", "0.01", "0.07", "0.1", "0.2", "0.33", "0.9", "0.5", "1", "3"}
 H = {"0.04166666666666667", "0.1", "0.25", "0.5", "1", "2", "3"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Order RK4Accuracy TangentExact Stable CrankOrder Compose Closes Steady
