CONSTANTS Deep = TRUE Levels = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exported Lawful ShiftFree
