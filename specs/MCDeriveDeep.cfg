SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Steps = 2
INVARIANTS Belongs Kept SourceIntact SameFound
