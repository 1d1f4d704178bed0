SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Pairs = TRUE
INVARIANTS FilterOnce DictThere FilterRestricts
