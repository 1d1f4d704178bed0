SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Pairs = FALSE
INVARIANTS FilterOnce DictThere FilterRestricts
