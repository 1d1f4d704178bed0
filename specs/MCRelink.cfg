SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Rekeys = TRUE
INVARIANTS Rejected Transparent Forgotten Contradictions Others
