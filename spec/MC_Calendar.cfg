SPECIFICATION Spec
CONSTANTS FirstYear = 1899 LastYear = 2101
INVARIANTS Agree Anchors
CHECK_DEADLOCK FALSE
