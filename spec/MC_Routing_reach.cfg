SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 3 Kinds = {"gr6j"} Net = TRUE
INVARIANTS Dry
