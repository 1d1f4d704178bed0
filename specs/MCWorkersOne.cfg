CONSTANTS Units = 4
 Threads = 3
 Draws = 2
 Seed = 7
 Single = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reproducible SeparateUnits
PROPERTY AllDrawn
