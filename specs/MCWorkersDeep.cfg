CONSTANTS Units = 4
 Threads = 3
 Draws = 3
 Seed = 7
 Single = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reproducible SeparateUnits
