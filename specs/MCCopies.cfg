CONSTANT Limit = 1
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS CopyIsFaithful SubsetCommutes FullSubset Isolated
