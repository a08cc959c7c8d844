SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS T = 6 Kinds = {"gr4j", "gr6j"} Net = TRUE
INVARIANTS Balance Signs Within WholeShares Triangles
