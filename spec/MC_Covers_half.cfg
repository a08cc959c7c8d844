SPECIFICATION Spec
CONSTANTS One = 4 Depths = {0, 1, 3} MaxChanges = 2 Sets = {{"open", "glacier", "forest"}, {"ground", "glacier"}, {"glacier", "forest"}, {"open", "ground", "glacier"}, {"open"}} Broken = "half"
INVARIANTS IsPartition Refused Taken Others Conserved Ice NonNegative
CHECK_DEADLOCK FALSE
