SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Covers = {ground, glacier, forest}
  MaxVariants = 3
  Smallest = TRUE
INVARIANTS Right Keeps Tight Alike OrderFree Irrelevant
