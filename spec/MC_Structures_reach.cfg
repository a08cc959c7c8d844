SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Covers = {ground, glacier, forest}
  MaxVariants = 3
  Smallest = TRUE
INVARIANT NoTie
