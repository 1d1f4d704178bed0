CONSTANT Limit = 2
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS CopyIsFaithful SubsetCommutes FullSubset Isolated
