SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 3 Kinds = {"gr4j"} Net = FALSE
INVARIANTS Balance
