SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Wide = TRUE
INVARIANTS Aligned AlignedVectors FillsAllowed PartialAligned Seen
