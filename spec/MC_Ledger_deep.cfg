SPECIFICATION Spec
CONSTANTS A1 = 1 A2 = 3 MaxP = 4 MaxC = 8 Cap = 3
INVARIANTS Balance Local Splitters Bounds Capacity
CHECK_DEADLOCK FALSE
