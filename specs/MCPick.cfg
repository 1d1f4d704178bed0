SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Length = 4 Largest = 2
INVARIANTS OneChosen Shares InOrder
