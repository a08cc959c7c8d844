SPECIFICATION Spec
CONSTANTS One = 4 Depths = {0, 1, 3} MaxChanges = 3 Sets = {{"open", "glacier", "forest"}, {"ground", "glacier"}, {"glacier", "forest"}, {"open", "ground", "glacier"}, {"open"}} Broken = "none"
INVARIANTS IsPartition Refused Taken Others Conserved Ice NonNegative
CHECK_DEADLOCK FALSE
