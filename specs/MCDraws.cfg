SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Most = 3 Rows = 9 Draws0 = {1, 3}
INVARIANTS Determined NoiseIgnored
