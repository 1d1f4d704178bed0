CONSTANTS Deep = FALSE Levels = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exported Lawful ShiftFree
