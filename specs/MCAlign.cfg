SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Wide = FALSE
INVARIANTS Aligned AlignedVectors FillsAllowed PartialAligned Seen
