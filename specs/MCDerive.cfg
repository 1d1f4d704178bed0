SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Steps = 1
INVARIANTS Belongs Kept SourceIntact SameFound
