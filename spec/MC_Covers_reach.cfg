SPECIFICATION Spec
CONSTANTS One = 4 Depths = {0, 1, 3} MaxChanges = 2 Sets = {{"open", "glacier", "forest"}} Broken = "none"
INVARIANT Unseen
CHECK_DEADLOCK FALSE
