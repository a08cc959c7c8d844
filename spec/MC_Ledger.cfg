SPECIFICATION Spec
CONSTANTS A1 = 2 A2 = 2 MaxP = 2 MaxC = 4 Cap = 2
INVARIANTS Balance Local Splitters Bounds Capacity
CHECK_DEADLOCK FALSE
