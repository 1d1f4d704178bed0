CONSTANTS Units = 3
 Threads = 2
 Draws = 2
 Seed = 7
 Single = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reproducible SeparateUnits
PROPERTY AllDrawn
